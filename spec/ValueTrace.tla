----------------------------- MODULE ValueTrace -----------------------------
(***************************************************************************)
(* Validation of recorded values of the frame distances, given in 1e-5     *)
(* (squared for the square root of JS and for Hellinger), against FixedSem.*)
(***************************************************************************)
EXTENDS FixedSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, bad
vars == <<ci, l, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}
NI == Len(T.x)
NJ == Len(T.y)
Null(r) == \A i \in DOMAIN r : r[i] = 0
Value(x, y) == CASE T.how = "kl" -> Kl(x, y, T.eps)
                 [] T.how = "symkl" -> SymKl(x, y, T.eps)
                 [] T.how = "js" -> Js(x, y)
                 [] OTHER -> Hel2(x, y)
Good(x, y, v) ==
  IF T.how = "cosine"
  THEN IF Null(x) \/ Null(y) THEN v = (IF Null(x) /\ Null(y) THEN 0 ELSE 100000)
       ELSE v >= 0 /\ v <= 100000 /\ CosDiff(x, y, v) <= 30
  ELSE Abs2(v - Value(x, y)) <= T.tol

(* dynamic time warping over these values *)
Min2(a, b) == IF a < b THEN a ELSE b
RowStep(prev, i, D) ==
  FoldLeft(LAMBDA acc, j :
     Append(acc, D[i][j] + (IF i = 1 THEN (IF j = 1 THEN 0 ELSE acc[j - 1])
                            ELSE IF j = 1 THEN prev[1]
                            ELSE Min2(prev[j], Min2(prev[j - 1], acc[j - 1])))),
     <<>>, [j \in 1..NJ |-> j])
Dtw == LET D == [i \in 1..NI |-> [j \in 1..NJ |-> SymKl(T.x[i], T.y[j], T.eps)]]
           last == FoldLeft(LAMBDA acc, i : RowStep(acc, i, D), <<>>, [i \in 1..NI |-> i])
       IN last[NJ]

Clauses(e) ==
  IF e.outcome # "ok" THEN {"raised." \o e.outcome}
  ELSE IF T.how = "dtwkl" THEN Fail(Abs2(e.v - Dtw) <= T.tol * (NI + NJ), "dtw_of_kl")
  ELSE Fail(\A i \in 1..NI : \A j \in 1..NJ : Good(T.x[i], T.y[j], e.v[i][j]), "value." \o T.how)

Init == ci \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup (IF T.events[l].ev = "Error" THEN {"raised." \o T.events[l].what} ELSE Clauses(T.events[l]))
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
