------------------------------- MODULE Align -------------------------------
(***************************************************************************)
(* The alignment algorithms, cell by cell, against the definitions of      *)
(* AlignSem: cumulated costs, then the traceback which counts the cells of *)
(* one optimal path (diagonal first, then left, then up).                  *)
(***************************************************************************)
EXTENDS AlignSem, TLC

CONSTANTS MaxN, MaxM, MaxD

VARIABLES n, m, d, cost, k, phase, i, j, len
vars == <<n, m, d, cost, k, phase, i, j, len>>

Cell(q) == <<((q - 1) \div m) + 1, ((q - 1) % m) + 1>>
At(a, b) == cost[(a - 1) * m + b]

Init == /\ n \in 1..MaxN /\ m \in 1..MaxM
        /\ d \in [1..n -> [1..m -> 0..MaxD]]
        /\ cost = <<>> /\ k = 1 /\ phase = "fill" /\ i = 0 /\ j = 0 /\ len = 0
Fill == /\ phase = "fill" /\ k <= n * m
        /\ LET a == Cell(k)[1]
               b == Cell(k)[2]
               v == d[a][b]
           IN cost' = Append(cost, IF a = 1 /\ b = 1 THEN v
                  ELSE IF b = 1 THEN v + At(a - 1, 1)
                  ELSE IF a = 1 THEN v + At(1, b - 1)
                  ELSE v + Min3(At(a - 1, b), At(a - 1, b - 1), At(a, b - 1)))
        /\ k' = k + 1 /\ UNCHANGED <<n, m, d, phase, i, j, len>>
Filled == /\ phase = "fill" /\ k = n * m + 1
          /\ phase' = "back" /\ i' = n /\ j' = m /\ len' = 1
          /\ UNCHANGED <<n, m, d, cost, k>>
Back == /\ phase = "back"
        /\ IF i > 1 /\ j > 1
           THEN LET g == At(i - 1, j - 1)
                    l == At(i, j - 1)
                    u == At(i - 1, j)
                IN /\ len' = len + 1 /\ UNCHANGED phase
                   /\ IF g <= l /\ g <= u THEN i' = i - 1 /\ j' = j - 1
                      ELSE IF l <= u THEN i' = i /\ j' = j - 1
                      ELSE i' = i - 1 /\ j' = j
           ELSE phase' = "done" /\ len' = len + (i - 1) + (j - 1) /\ UNCHANGED <<i, j>>
        /\ UNCHANGED <<n, m, d, cost, k>>
Next == Fill \/ Filled \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Optimal == phase = "done" => At(n, m) = DtwMin(d, n, m)
LengthOfAnOptimalPath == phase = "done" => len \in DtwLens(d, n, m)
DPIsDefinition == phase = "done" => LET r == DtwDP(d) IN r.c = DtwMin(d, n, m) /\ r.ls = DtwLens(d, n, m)
Ends == <>(phase = "done")

(* closed facts, on small scopes *)
ASSUME EditOk == \A x, y \in UNION {[1..q -> 0..1] : q \in 0..3} : EditDP(x, y) = Edit(x, y, Len(x), Len(y))
ASSUME UtwOk == \A n1 \in 1..12 : \A n2 \in n1..12 :
  /\ \A q \in 0..(n2 - 1) : LET S == UtwAt(q, n1, n2) IN
       /\ FoldSet(LAMBDA w, a : a + w[2], 0, S) = 2
       /\ \A w \in S : w[1] \in 0..(n1 - 1)
       /\ n1 = n2 => S = {<<q, 2>>}
  (* monotonic, and symmetric under reversal of time *)
  /\ \A q \in 0..(n2 - 2) : \A w \in UtwAt(q, n1, n2) : \A v \in UtwAt(q + 1, n1, n2) : w[1] <= v[1]
  /\ \A q \in 0..(n2 - 1) : UtwAt(n2 - 1 - q, n1, n2) = {<<n1 - 1 - w[1], w[2]>> : w \in UtwAt(q, n1, n2)}
ASSUME AngleOk == \A x, y \in [1..2 -> -1..1] :
  /\ Angle12(x, y) \in 0..12 /\ Angle12(x, y) = Angle12(y, x)
  /\ (~Null(x) /\ ~Null(y)) => Angle12(x, y) + Angle12(x, [q \in 1..2 |-> -y[q]]) = 12
=============================================================================
