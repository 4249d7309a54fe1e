-------------------------------- MODULE Tree --------------------------------
(* Every tree that the operations lead to.  hist is not part of the view.  *)
EXTENDS TreeSem, TLC, Json
CONSTANTS N, Export
VARIABLES s, hist, last
vars == <<s, hist, last>>
View == s
Init == s = Start(N) /\ hist = <<>> /\ last = Op("", 0, <<>>)
Do(o) == LET r == Exec(s, o) IN s' = r.s /\ hist' = Append(hist, o) /\ last' = o
Say == Export /\ PrintT("STATE|" \o ToJson([hist |-> hist, ops |-> SetToSeq(Legal(s))])) /\ UNCHANGED vars
Next == Say \/ \E o \in Legal(s) : Do(o)
Spec == Init /\ [][Next]_vars

(* one parent for each node, which has it once among its children *)
Consistent == \A n \in 1..N : \A p \in 1..N :
  Cardinality({k \in 1..Len(s.kids[p]) : s.kids[p][k] = n}) = IF s.par[n] = p THEN 1 ELSE 0
Acyclic == \A n \in 1..N : Cardinality(ToSet(Up(s, n))) = Len(Up(s, n))
(* the trees have all the nodes, in both orders; an ancestor comes first in *)
(* one and last in the other                                               *)
Traversals ==
  /\ \A n \in 1..N : s.par[n] = 0 => ToSet(Pre(s, n)) = {m \in 1..N : Root(s, m) = n} /\ ToSet(Post(s, n)) = ToSet(Pre(s, n))
  /\ \A n \in 1..N : Cardinality(ToSet(Pre(s, n))) = Len(Pre(s, n))
  /\ \A n, m \in 1..N : (m # n /\ Contains(Up(s, n), m)) =>
       LET q == Whole(s, n) t == Post(s, Root(s, n)) IN Place(q, m) < Place(q, n) /\ Place(t, m) > Place(t, n)
(* an operation moves only the nodes that it is given, and the others keep *)
(* their order                                                             *)
Touched(o) == {o.n} \cup ToSet(o.ms)
Local == [][\A p \in 1..N : (p \notin Touched(last') /\ s.par[last'.n] # p) => s'.kids[p] = s.kids[p]]_vars
=============================================================================
