------------------------------ MODULE GenTrace ------------------------------
(***************************************************************************)
(* Judges recorded uses of the generators of test data and of the          *)
(* comparisons of files.                                                   *)
(***************************************************************************)
EXTENDS GenSem, Json, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, bad
vars == <<ci, l, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}

(* e.header: columns found; e.rows: label numbers, by column; e.sources:
   numbers of the sources; T.source = 1 when the files are named *)
ItemsClauses(e) ==
  IF e.outcome # "ok" THEN {"raised." \o e.outcome} ELSE
  Fail(Len(e.header) = 4 + T.n /\ e.header[1] = "#file" /\ e.header[2] = "onset"
       /\ e.header[3] = "offset" /\ Head(e.signs) = 1 /\ e.signs[4] = 1, "header")
  \cup Fail(Cardinality(ToSet(e.header)) = Len(e.header), "column_twice")
  \cup Fail(Complete(e.rows, T.base, T.n, T.repeats), "combinations")
  \cup Fail(e.sources = [i \in 1..Len(e.rows) |-> i - 1], "sources")

(* one entry for each source, replaced when the file exists *)
FeaturesClauses(e) ==
  IF e.outcome # "ok" THEN {"raised." \o e.outcome} ELSE
  Fail(e.sources = [i \in 1..T.files |-> i - 1], "sources")
  \cup Fail(Len(e.frames) = T.files /\ \A i \in 1..Len(e.frames) : e.frames[i] >= 1 /\ e.frames[i] <= T.frames, "frames")
  \cup Fail(\A i \in 1..Len(e.dims) : e.dims[i] = T.feat, "columns")
  \cup Fail(\A i \in 1..Len(e.times) : e.times[i] = e.frames[i], "times")
  \cup Fail(e.increasing = 1, "times_order")

(* all the frames of [0, 1]: every number of frames occurs in many files *)
SpreadClauses(e) == FeaturesClauses(e)
  \cup Fail(ToSet(e.frames) = 1..T.frames, "never_drawn")

BothClauses(e) ==
  IF e.outcome # "ok" THEN {"raised." \o e.outcome} ELSE
  Fail(e.missing = 0, "source_without_features") \cup Fail(e.items = (T.repeats + 1) * Power(T.base, T.n), "items")

CompareClauses(e) ==
  LET same == IF T.how = "csv" THEN SameTable(T.a, T.b) ELSE T.a = T.b
  IN IF e.outcome # "ok" THEN {"raised." \o e.outcome}
     ELSE Fail(same => e.answer = 1, "same_not_recognised")
          \cup Fail(~same => e.answer = 0, "difference_not_seen")

Clauses(e) ==
  CASE e.ev = "Items"    -> ItemsClauses(e)
    [] e.ev = "Features" -> IF T.spread = 1 THEN SpreadClauses(e) ELSE FeaturesClauses(e)
    [] e.ev = "Both"     -> BothClauses(e)
    [] e.ev = "Compare"  -> CompareClauses(e)
    [] OTHER -> {"unknown_event"}

Init == ci \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup Clauses(T.events[l]) /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
