----------------------------- MODULE ConvTrace -----------------------------
(* Validation of recorded conversions and verifications.                   *)
(* kind "convert": T.src[k] = [name, n, d]: source k has n frames of        *)
(*   dimension d; its frame t is at time Time(k, t) and has the values      *)
(*   Value(k, t, j).  The event lists what the feature file holds.          *)
(* kind "verify": T.head, T.named, T.stored; the event tells the verdict.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, bad
vars == <<ci, l, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}
(* shared = 1: the sources have the same first and last times and frames *)
Time(k, t) ==
  IF T.shared = 0 THEN k + 2 * t
  ELSE IF t = T.src[k].n THEN 1000 * t ELSE IF t = 1 THEN 0 ELSE 10 * t + (k % 7)
Value(k, t, j) ==
  IF T.shared = 1 /\ (t = 1 \/ t = T.src[k].n) THEN j ELSE 1000 * k + 10 * t + j

ConvClauses(e) ==
  IF e.outcome # "ok" THEN {"raised." \o e.outcome}
  ELSE LET K == DOMAIN T.src
           at(k) == {i \in DOMAIN e.items : e.items[i].name = T.src[k].name} IN
   Fail(Len(e.items) = Len(T.src) /\ \A k \in K : Cardinality(at(k)) = 1, "names") \cup
   Fail(\A k \in K : \A i \in at(k) :
          e.items[i].times = [t \in 1..T.src[k].n |-> Time(k, t)], "times") \cup
   Fail(\A k \in K : \A i \in at(k) :
          e.items[i].feats = [t \in 1..T.src[k].n |-> [j \in 1..T.src[k].d |-> Value(k, t, j)]], "features") \cup
   Fail(e.inputs = 1, "inputs_modified")

RightHeader == /\ Len(T.head) >= 4 /\ T.head[1] = "#file" /\ T.head[2] = "onset" /\ T.head[3] = "offset"
               /\ T.head[4] = "#"
Accept == RightHeader /\ ToSet(T.named) \subseteq ToSet(T.stored)
VerClauses(e) == Fail(Accept => e.accepted = 1, e.how \o "_refused") \cup
                 Fail(~Accept => e.accepted = 0, e.how \o "_accepted") \cup
                 Fail(e.inputs = 1, "inputs_modified")
Clauses(e) == IF e.ev = "Error" THEN {"raised." \o e.what}
              ELSE IF T.kind = "convert" THEN ConvClauses(e) ELSE VerClauses(e)

Init == ci \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup Clauses(T.events[l])
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
