----------------------------- MODULE TreeTrace -----------------------------
(* Validation of recorded operations on trees: T.hist leads to the tree on *)
(* which each of the recorded operations is done, e.obs[n] has the answers *)
(* of node n afterwards.                                                   *)
EXTENDS TreeSem, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, bad
vars == <<ci, l, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}
Reached == FoldSeq(LAMBDA o, s : Exec(s, o).s, Start(T.n), T.hist)

(* a tree given as nested lists: a sequence of [v, sub], sub a sequence of *)
(* such, list = 1 when there is a list after the node (it may be empty)    *)

Heads(q) == [k \in 1..Len(q) |-> q[k].v]
RECURSIVE FromList(_, _, _)
FromList(s, p, q) ==
  IF q = <<>> THEN s
  ELSE LET h == Head(q)
           a == IF p = 0 THEN s ELSE Add(s, p, h.v)
       IN FromList(FromList(a, h.v, h.sub), p, Tail(q))

ObsClauses(s, n, o) ==
  Fail(o.idx = (IF s.par[n] = 0 THEN -1 ELSE Place(s.kids[s.par[n]], n) - 1), "index") \cup
  Fail(o.sib = Siblings(s, n), "siblings") \cup
  Fail(o.up = Up(s, n) /\ o.down = Reverse(Up(s, n)) /\ o.root = Root(s, n) /\ o.depth = Len(Up(s, n)), "path") \cup
  Fail(o.pre = Pre(s, n) /\ o.count = Len(o.pre), "preorder") \cup
  Fail(o.post = Post(s, n), "postorder") \cup
  Fail(o.next = FirstOf(After(s, n), LAMBDA m : TRUE) /\ o.prev = FirstOf(Before(s, n), LAMBDA m : TRUE), "neighbours") \cup
  Fail(ToSet(o.desc) = {m \in Nodes(s) : Contains(Up(s, m), n)}, "on_path_of") \cup
  Fail(ToSet(o.isib) = {m \in Nodes(s) : Contains(Siblings(s, m), n)}, "sibling_of") \cup
  Fail(o.fchild = Found(Pre(s, n)), "find_child") \cup
  Fail(o.fparent = Found(Tail(Up(s, n))), "find_parent") \cup
  Fail(o.ffwd = Found(After(s, n)), "find_forwards") \cup
  Fail(o.fback = Found(Before(s, n)), "find_backwards") \cup
  LET c == SelectSeq(Up(s, n), LAMBDA m : Colour(m) # 0) IN
  Fail(o.attr = (IF c = <<>> THEN 0 ELSE Colour(c[1])) /\ o.attrs = [k \in 1..Len(c) |-> Colour(c[k])], "attributes") \cup
  Fail(o.prop = FirstOf(Up(s, n), LAMBDA m : m % 2 = 0), "property") \cup
  Fail(o.dump = [k \in 1..Len(Pre(s, n)) |-> <<Len(Up(s, Pre(s, n)[k])) - 1, Pre(s, n)[k]>>], "dump")
StateClauses(s, e) ==
  IF e.kids # s.kids THEN {"children"} ELSE IF e.par # s.par THEN {"parents"}
  ELSE UNION {ObsClauses(s, n, e.obs[n]) : n \in Nodes(s)}
Prefix(name, S) == {name \o "." \o x : x \in S}
Clauses(e) ==
  IF e.ev = "Error" THEN {"raised." \o e.what}
  ELSE IF e.ev = "List"
  THEN IF T.bad = 1 THEN Fail(e.ok = 0, "list.not_refused")
       ELSE Fail(e.ok = 1, "list.refused") \cup
            (IF e.ok = 1 THEN Fail(e.heads = Heads(T.list), "list.heads")
                              \cup Prefix("list", StateClauses(FromList(Start(T.n), 0, T.list), e)) ELSE {})
  ELSE LET r == Exec(Reached, e.op) IN
       Fail(e.ok = r.ok, e.op.op \o (IF r.ok = 1 THEN ".refused" ELSE ".not_refused")) \cup
       (IF e.ok = r.ok THEN Fail(e.ret = r.ret, e.op.op \o ".returned") \cup Prefix(e.op.op, StateClauses(r.s, e)) ELSE {})
Init == ci \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup Clauses(T.events[l])
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A x \in bad : PrintT("BAD|" \o T.id \o "|" \o x)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
