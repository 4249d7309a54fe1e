---------------------------- MODULE MetricTrace ----------------------------
(***************************************************************************)
(* Validation of recorded calls of the distances.  Values are projected to *)
(* integers: exact multiples of the unit of the case, or -1; or the rank   *)
(* of each value among those of the case (equal up to 1e-7: same rank).    *)
(***************************************************************************)
EXTENDS AlignSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, bad
vars == <<ci, l, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}

(* dtw: T.d in units; e.v = cost in units, or, normalized, e.v[L] = value * L *)
DtwClauses(e) ==
  LET r == DtwDP(T.d) IN
  IF T.norm = 0 THEN Fail(e.v[1] = r.c, "cost")
  ELSE Fail(\E L \in r.ls : e.v[L] = r.c, "normalized_cost")
EditClauses(e) == Fail(e.v[1] = EditDP(T.x, T.y), "edit")
(* conventions for empty sequences: 0 for both, INF for one *)
EmptyClauses(e) == Fail(e.v[1] = (IF T.n = 0 /\ T.m = 0 THEN 0 ELSE INF), "empty")
UtwClauses(e) == Fail(e.v[1] = Utw2(T.d, T.n, T.m), "utw")

NI == Len(T.x)
NJ == Len(T.y)
(* e.v[i][j]: ranks; e.a[i][j]: angle in pi/12 *)
CosClauses(e) ==
  Fail(\A i \in 1..NI : \A j \in 1..NJ : Angle12(T.x[i], T.y[j]) # -1 => e.a[i][j] = Angle12(T.x[i], T.y[j]), "angle")
  \cup Fail(\A i, p \in 1..NI : \A j, q \in 1..NJ :
        (T.exact = 1 /\ ~Null(T.x[i]) /\ ~Null(T.x[p]) /\ ~Null(T.y[j]) /\ ~Null(T.y[q])
         /\ CosGreater(T.x[i], T.y[j], T.x[p], T.y[q])) => e.v[i][j] < e.v[p][q], "monotonic")

(* matrices of ranks: full, each entry alone, scaled rows, exchanged arguments *)
MatClauses(e) ==
  Fail(e.alone = e.full, "rows_not_independent")
  \cup Fail(T.scale = 1 => e.scaled = e.full, "scale")
  \cup Fail(T.sym = 1 => \A i \in 1..NI : \A j \in 1..NJ : e.swapped[j][i] = e.full[i][j], "symmetry")
  \cup Fail(\A i \in 1..NI : \A j \in 1..NJ : T.same[i][j] = 1 => e.full[i][j] = 0, "equal_rows")
  \cup Fail(\A i \in 1..NI : \A j \in 1..NJ : (T.exact = 1 /\ T.same[i][j] = 0) => e.full[i][j] > 0, "different_rows")
  \cup Fail(T.ptw = 1 => e.pointwise = e.full, "pointwise")
  \cup Fail(e.mutated = 0, "arguments_modified")
(* two-column rows a:b: the further the proportion, the greater the value *)
Odds(i, j) == T.x[i][1] * T.y[j][2] - T.x[i][2] * T.y[j][1]      \* sign: x less or more than y
LessY(j, q) == T.y[j][1] * T.y[q][2] < T.y[q][1] * T.y[j][2]
MonoClauses(e) ==
  Fail(\A i \in 1..NI : \A j, q \in 1..NJ :
     (/\ LessY(j, q) /\ Odds(i, j) <= 0) => e.full[i][j] < e.full[i][q], "monotonic")
  \cup Fail(\A i \in 1..NI : \A j, q \in 1..NJ :
     (/\ LessY(j, q) /\ Odds(i, q) >= 0) => e.full[i][j] > e.full[i][q], "monotonic")
(* proportions 3^a : 1; symmetrized KL = log(3)/2 (p - q)(a - b), p = P/20 *)
P20(a) == CASE a = -2 -> 2 [] a = -1 -> 5 [] a = 0 -> 10 [] a = 1 -> 15 [] OTHER -> 18
KlClauses(e) == Fail(\A i \in 1..NI : \A j \in 1..NJ :
     e.v[i][j] = (P20(T.x[i]) - P20(T.y[j])) * (T.x[i] - T.y[j]), "kl_value")
(* Hellinger: rows are the squares of (u, v) with norm h; h h' H^2 = h h' - dot *)
HelClauses(e) == Fail(\A i \in 1..NI : \A j \in 1..NJ :
     e.v[i][j] = T.x[i][3] * T.y[j][3] - (T.x[i][1] * T.y[j][1] + T.x[i][2] * T.y[j][2]), "hellinger_value")

Clauses(e) ==
  IF e.outcome # "ok"
  THEN Fail(T.refused = 1, "raised." \o e.outcome)
  ELSE Fail(T.refused = 0, "not_refused") \cup
  CASE T.kind = "dtw" -> DtwClauses(e)
    [] T.kind = "edit" -> EditClauses(e)
    [] T.kind = "empty" -> EmptyClauses(e)
    [] T.kind = "utw" -> UtwClauses(e)
    [] T.kind = "cos" -> CosClauses(e)
    [] T.kind = "mat" -> MatClauses(e)
    [] T.kind = "mono" -> MatClauses(e) \cup MonoClauses(e)
    [] T.kind = "kl" -> KlClauses(e)
    [] T.kind = "hel" -> HelClauses(e)
    [] OTHER -> {"unknown"}

Init == ci \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup (IF T.events[l].ev = "Error" THEN {"raised." \o T.events[l].what} ELSE Clauses(T.events[l]))
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
