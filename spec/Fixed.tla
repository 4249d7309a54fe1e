------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Consistency of the fixed point values (FixedSem): laws of the real      *)
(* functions hold, within the accuracy claimed, on every pair of rows of   *)
(* the scope.  TLC enumerates the rows as initial states.                  *)
(***************************************************************************)
EXTENDS FixedSem
CONSTANTS NC, Top
VARIABLES x, y, n, m
vars == <<x, y, n, m>>
Rows == {r \in [1..NC -> 0..Top] : \E i \in 1..NC : r[i] # 0}
Init == /\ x \in Rows /\ y \in Rows /\ n \in {7, 13, 20} /\ m \in {RowSum(x), 36, 60}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Near(a, b, t) == Abs2(a - b) <= t
LogAdds == Near(Ln[n * m], Ln[n] + Ln[m], 100)
Positive == /\ Kl(x, y, 52) >= -5 /\ Js(x, y) >= -5 /\ Hel2(x, y) >= -120
Identity == /\ Near(Kl(x, x, 52), 0, 5) /\ Near(Js(x, x), 0, 5) /\ Near(Hel2(x, x), 0, 120)
Symmetric == /\ Js(x, y) = Js(y, x) /\ SymKl(x, y, 52) = SymKl(y, x, 52) /\ Hel2(x, y) = Hel2(y, x)
Bounded == /\ Js(x, y) <= Ln[2] \div 100 + 5 /\ Hel2(x, y) <= 100000
(* half the squared Hellinger distance bounds: H^2 <= KL, JS <= KL-symmetrized / 2 *)
Inequalities == /\ Hel2(x, y) <= Kl(x, y, 52) + 120
                /\ Js(x, y) <= SymKl(x, y, 52) \div 2 + 10
Scale(r, k) == [i \in 1..NC |-> k * r[i]]
ScaleFree == /\ Near(Kl(Scale(x, 2), Scale(y, 3), 52), Kl(x, y, 52), 10)
             /\ Near(Js(Scale(x, 2), y), Js(x, y), 10)
             /\ Near(Hel2(Scale(x, 2), y), Hel2(x, y), 120)
(* cosine of remarkable angles *)
Angles == /\ Near(Cos4(0), 10000, 2) /\ Near(Cos4(50000), 0, 2) /\ Near(Cos4(100000), -10000, 2)
          /\ Near(Cos4(33333), 5000, 2) /\ Near(Cos4(25000), 7071, 2) /\ Near(Cos4(75000), -7071, 2)
          /\ \A v \in 0..39 : Cos4(v * 2500) > Cos4((v + 1) * 2500)
CosOfSelf == CosDiff(x, x, 0) <= 20
=============================================================================
