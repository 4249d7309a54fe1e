------------------------------ MODULE Sampler ------------------------------
(***************************************************************************)
(* Incremental sampling of K elements among N: each chunk of n elements    *)
(* gets a number k of drawn elements that leaves the rest feasible, and a  *)
(* subset of this size.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

CONSTANTS MaxN, Steps

VARIABLES n0, k0, left, todo, drawn
vars == <<n0, k0, left, todo, drawn>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Init == n0 \in 0..MaxN /\ k0 \in 0..n0 /\ left = n0 /\ todo = k0 /\ drawn = {}
Chunk(s) == LET n == Min2(s, left) IN
  /\ left > 0
  /\ \E k \in Max2(0, todo - (left - n))..Min2(todo, n) :
     \E S \in kSubset(k, (n0 - left + 1)..(n0 - left + n)) :
       /\ drawn' = drawn \cup S
       /\ left' = left - n /\ todo' = todo - k
  /\ UNCHANGED <<n0, k0>>
Next == \E s \in Steps : Chunk(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Feasible == 0 <= todo /\ todo <= left
Counted == Cardinality(drawn) = k0 - todo
Exact == left = 0 => Cardinality(drawn) = k0
Within == drawn \subseteq 1..(n0 - left)
Ends == <>(left = 0)
=============================================================================
