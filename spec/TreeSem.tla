------------------------------ MODULE TreeSem ------------------------------
(***************************************************************************)
(* Ordered trees over the nodes 1..N: s.kids[n] is the sequence of the     *)
(* children of n, s.par[n] its parent (0: none).  Operations o have a      *)
(* node o.n and a sequence of other nodes o.ms.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Start(n) == [kids |-> [i \in 1..n |-> <<>>], par |-> [i \in 1..n |-> 0]]
Nodes(s) == DOMAIN s.kids

RECURSIVE Up(_, _)
Up(s, n) == IF s.par[n] = 0 THEN <<n>> ELSE <<n>> \o Up(s, s.par[n])
Root(s, n) == Last(Up(s, n))
RECURSIVE Pre(_, _)
Pre(s, n) == <<n>> \o FlattenSeq([k \in 1..Len(s.kids[n]) |-> Pre(s, s.kids[n][k])])
RECURSIVE Post(_, _)
Post(s, n) == FlattenSeq([k \in 1..Len(s.kids[n]) |-> Post(s, s.kids[n][k])]) \o <<n>>
Place(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x
Siblings(s, n) == IF s.par[n] = 0 THEN <<n>> ELSE s.kids[s.par[n]]

(* the children of p become q; those which come in get their parent, those *)
(* which go out lose it                                                    *)
SetKids(s, p, q) ==
  [kids |-> [s.kids EXCEPT ![p] = q],
   par |-> [i \in Nodes(s) |-> IF Contains(q, i) THEN p ELSE IF s.par[i] = p THEN 0 ELSE s.par[i]]]
Splice(q, k, ms) == SubSeq(q, 1, k - 1) \o ms \o SubSeq(q, k + 1, Len(q))
Add(s, n, m) == SetKids(s, n, Append(s.kids[n], m))
Replace(s, n, ms) == LET p == s.par[n] IN SetKids(s, p, Splice(s.kids[p], Place(s.kids[p], n), ms))

Refuse(s) == [s |-> s, ok |-> 0, ret |-> <<>>]
Exec(s, o) ==
  LET n == o.n IN
  CASE o.op = "add" -> [s |-> Add(s, n, o.ms[1]), ok |-> 1, ret |-> <<>>]
    [] o.op = "remove" ->
         IF s.par[n] = 0 THEN Refuse(s)
         ELSE [s |-> Replace(s, n, <<>>), ok |-> 1, ret |-> <<Place(s.kids[s.par[n]], n) - 1>>]
    [] o.op = "clear" -> [s |-> SetKids(s, n, <<>>), ok |-> 1, ret |-> s.kids[n]]
    [] o.op = "replace" ->
         IF s.par[n] = 0 THEN Refuse(s) ELSE [s |-> Replace(s, n, o.ms), ok |-> 1, ret |-> <<>>]
    [] o.op = "inject" ->       (* o.ms[1] between n and its children *)
         LET m == o.ms[1] q == s.kids[n] IN
         [s |-> SetKids(SetKids(SetKids(s, n, <<>>), m, s.kids[m] \o q), n, <<m>>), ok |-> 1, ret |-> o.ms]
    [] o.op = "reparent" ->     (* o.ms[1] between n and its parent *)
         IF s.par[n] = 0 THEN Refuse(s)
         ELSE [s |-> Add(Replace(s, n, o.ms), o.ms[1], n), ok |-> 1, ret |-> o.ms]

(* the nodes which can be put under n: roots of other trees *)
Free(s, n) == {m \in Nodes(s) : s.par[m] = 0 /\ Root(s, n) # m}
Op(k, n, ms) == [op |-> k, n |-> n, ms |-> ms]
Legal(s) ==
  {Op(k, n, <<>>) : k \in {"remove", "clear", "replace"}, n \in Nodes(s)} \cup
  UNION {{Op(k, n, <<m>>) : k \in {"add", "inject", "replace", "reparent"}, m \in Free(s, n)} : n \in Nodes(s)} \cup
  UNION {{Op("replace", n, <<p[1], p[2]>>) : p \in {q \in Free(s, n) \X Free(s, n) : q[1] # q[2]}} : n \in Nodes(s)}

(* ------------------------------------------------------------ questions *)
FirstOf(q, T(_)) == IF \E k \in 1..Len(q) : T(q[k])
                    THEN q[CHOOSE k \in 1..Len(q) : T(q[k]) /\ \A j \in 1..(k - 1) : ~T(q[j])] ELSE 0
Whole(s, n) == Pre(s, Root(s, n))
After(s, n) == LET q == Whole(s, n) IN SubSeq(q, Place(q, n) + 1, Len(q))
Before(s, n) == LET q == Whole(s, n) IN Reverse(SubSeq(q, 1, Place(q, n) - 1))
(* node 3 has no colour, the odd ones have the colour 1, the even ones 2 *)
Colour(n) == IF n = 3 THEN 0 ELSE IF n % 2 = 1 THEN 1 ELSE 2
Sel(k, m) == CASE k = 1 -> Colour(m) = 1 [] k = 2 -> m > 2 [] k = 3 -> m > 2 /\ Colour(m) = 2
               [] k = 4 -> Colour(m) = 2 /\ m % 4 = 0
Found(q) == [k \in 1..4 |-> FirstOf(q, LAMBDA m : Sel(k, m))]
=============================================================================
