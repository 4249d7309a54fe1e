----------------------------- MODULE FilesTrace -----------------------------
(* Validation of recorded histories.  e.files[f] is a digest of the content *)
(* of file f after the operation ("" if it is not there); seen remembers   *)
(* the digest of each content.                                             *)
EXTENDS FilesSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, c, dig, seen, bad
vars == <<ci, l, c, dig, seen, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}
NoFile == [f \in Names |-> ""]

Known(x) == {p \in seen : p[1] = x}
(* what an operation struck by a failure of the storage may do *)
FailedClauses(e) ==
  LET t == IF Writes(c, e.op) THEN {Target(e.op)} ELSE {} IN
  Fail(e.ok = "no", e.op.op \o ".failure_not_reported") \cup
  UNION {Fail(e.files[f] = dig[f], "altered." \o f) : f \in Names \ t} \cup
  Fail(e.inputs = 1, "inputs_modified") \cup
  Fail(e.extra = <<>>, "left_behind")
After(e) ==
  IF e.op.op = "put" THEN [c EXCEPT ![e.op.f] = Foreign]
  ELSE IF e.fault = 0 THEN Exec(c, e.op).c
  ELSE IF ~Writes(c, e.op) THEN c
  ELSE [c EXCEPT ![Target(e.op)] = IF e.files[Target(e.op)] = "" THEN <<>>
                                   ELSE IF e.files[Target(e.op)] = dig[Target(e.op)] THEN @ ELSE <<"P">>]
Clauses(e) ==
  IF e.op.op = "put" THEN Fail(c[e.op.f] = <<>>, "not_put") ELSE
  IF e.fault = 1 THEN FailedClauses(e) ELSE
  LET r == Exec(c, e.op) IN
  Fail(\/ r.ok = "any" \/ e.ok = r.ok, e.op.op \o "." \o e.op.how \o (IF r.ok = "yes" THEN ".failed" ELSE ".not_refused")) \cup
  Fail(r.warned = 1 => e.warned = 1, e.op.op \o ".silent_replacement") \cup
  UNION {Fail(r.c[f] = c[f] => e.files[f] = dig[f], "altered." \o f) : f \in Names} \cup
  UNION {Fail(r.c[f] # <<>> => e.files[f] # "", "missing." \o f) : f \in Names} \cup
  UNION {Fail(\A k \in Known(r.c[f]) : r.c[f] # <<>> => k[2] = e.files[f], "content." \o f) : f \in Names} \cup
  Fail(e.inputs = 1, "inputs_modified") \cup
  Fail(e.extra = <<>>, "left_behind")

Init == ci \in 1..Len(Cases) /\ l = 1 /\ c = Empty /\ dig = NoFile /\ seen = {} /\ bad = {}
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ LET e == T.events[l] IN
           IF e.ev = "Error" THEN /\ bad' = bad \cup {"raised." \o e.what} /\ UNCHANGED <<c, dig, seen>>
           ELSE /\ bad' = bad \cup Clauses(e)
                /\ c' = After(e)
                /\ dig' = [f \in Names |-> e.files[f]]
                /\ seen' = seen \cup {<<After(e)[f], e.files[f]>> : f \in {g \in Names : After(e)[g] \notin {<<>>, <<"P">>} /\ e.files[g] # ""}}
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, c, dig, seen, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
