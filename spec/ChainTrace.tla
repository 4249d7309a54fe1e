----------------------------- MODULE ChainTrace -----------------------------
(***************************************************************************)
(* The whole chain, from what the user gives to what the user reads.       *)
(*                                                                         *)
(* A case is a task (see AbxSem) with, for each item, its place            *)
(* T.locs[i] = <<source, onset, offset>>, the frames of each source        *)
(* T.feats[f] (sequence of [t, v]), and the name of the distance T.kind.   *)
(* The event Csv is the content of the result file, read after task,       *)
(* distance, score and analysis, run through the functions or the tools.   *)
(* Nothing of the files between is looked at: the result is computed here  *)
(* from the definition of the triplets, of the distances and of the score. *)
(***************************************************************************)
EXTENDS AbxSem, TLC, Json, IOUtils, FiniteSetsExt
Al == INSTANCE AlignSem

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, all, dis, bad
vars == <<ci, l, all, dis, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}

---------------------------------------------------------------------------
(* distances *)
Frames(i) ==
  LET p == T.locs[i]
      fr == SelectSeq(T.feats[p[1]], LAMBDA x : p[2] <= x.t /\ x.t <= p[3])
  IN  [k \in 1..Len(fr) |-> fr[k].v]
Total(x) == FoldLeft(LAMBDA acc, v : acc + v[1] + v[2], 0, x)
(* the angles are exact: frames along the axes, or null *)
Cosines(x, y) == [i \in 1..Len(x) |-> [j \in 1..Len(y) |-> Al!Angle12(x[i], y[j])]]
Distance(x, y) ==
  CASE T.kind = "mydist.fun" -> Al!Abs(Total(x) - 2 * Total(y)) + Len(x)
    [] x = <<>> /\ y = <<>>  -> 0
    [] x = <<>> \/ y = <<>>  -> Al!INF
    [] T.kind = "levenshtein" -> Al!EditDP(x, y)
    [] OTHER -> Al!DtwDP(Cosines(x, y)).c

---------------------------------------------------------------------------
(* result *)
Csv(e) ==
  LET rv == e.regvars
      cell == [tr \in all |-> << ByKey(T, tr[1]),
                [k \in 1..Len(rv) |-> Val(T, rv[k], tr[1], tr[2], tr[3])] >>]
      want == { LET I == {tr \in all : cell[tr] = c} IN
                [key |-> c[1], regs |-> c[2], n |-> Cardinality(I),
                 s2 |-> FoldSet(LAMBDA tr, acc :
                          acc + 1 + Sign(dis[tr[1]][tr[3]], dis[tr[2]][tr[3]]), 0, I)]
                : c \in {cell[tr] : tr \in all} }
      got == ToSet(e.rows)
  IN  IF ToSet(rv) # ToSet(T.regs) THEN {"columns"} ELSE
      Fail(Cardinality(got) = Len(e.rows), "repeated_line") \cup
      IF got = want THEN {} ELSE
      Fail({<<r.key, r.regs>> : r \in got} = {<<r.key, r.regs>> : r \in want}, "conditions")
      \cup Fail(\A r \in got : \A w \in want : (r.key = w.key /\ r.regs = w.regs) => r.n = w.n, "count")
      \cup Fail(\A r \in got : \A w \in want : (r.key = w.key /\ r.regs = w.regs) => r.s2 = w.s2, "mean")

Clauses(e) ==
  CASE e.ev = "Error" -> {"raised." \o e.what}
    [] e.ev = "Empty" -> Fail(all = {}, "no_result")
    [] e.ev = "Csv"   -> Fail(all # {}, "result_without_triplet") \cup Csv(e)

Init == ci \in 1..Len(Cases) /\ l = 0 /\ all = {} /\ dis = <<>> /\ bad = {}
Load == /\ l = 0 /\ l' = 1
        /\ all' = Triplets(T)
        /\ dis' = (LET x == [i \in Items(T) |-> Frames(i)] IN
                   [i \in Items(T) |-> [j \in Items(T) |-> Distance(x[i], x[j])]])
        /\ UNCHANGED <<ci, bad>>
Step == /\ l > 0 /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup Clauses(T.events[l])
        /\ UNCHANGED <<ci, all, dis>>
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ all' = {} /\ dis' = <<>>
           /\ UNCHANGED <<ci, bad>>
Next == Load \/ Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
