------------------------------ MODULE CliTrace ------------------------------
(* Validation of recorded pairs: the same request through the command line *)
(* (e.cli) and through the Python functions (e.api), in twin directories:  *)
(* files written with their digests, success, statistics printed.          *)
EXTENDS CliSem, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, bad
vars == <<ci, l, bad>>
T == Cases[ci]
Q == T.req
Fail(cond, name) == IF cond THEN {} ELSE {name}
(* the name of the output *)
Output == CASE Q.tool = "task" -> IF Q.stats = 1 THEN {} ELSE IF Q.out = 1 THEN {"my.out"} ELSE {"data.abx"}
            [] Q.tool = "distance" -> {"my.out"}
            [] Q.tool = "score" -> IF Q.out = 1 THEN {"my.out"} ELSE {"t_d.score"}
            [] Q.tool = "analyze" -> {"my.out"}
Refused == Q.tool = "distance" /\ DistRefused(Q)
Clauses(e) ==
  Fail(T.args = Args(Q), "arguments") \cup
  IF Refused THEN Fail(e.cli.ok = 0, "not_refused")
  ELSE Fail(e.cli.ok = e.api.ok, Q.tool \o ".success") \cup
       Fail(ToSet(e.cli.names) = ToSet(e.api.names), Q.tool \o ".files") \cup
       Fail(e.cli.digests = e.api.digests, Q.tool \o ".content") \cup
       Fail(e.api.ok = 1 => ToSet(e.cli.names) = (IF e.empty = 1 THEN {} ELSE Output), Q.tool \o ".output_name") \cup
       Fail(e.api.ok = 1 => e.cli.stats = e.api.stats, Q.tool \o ".statistics")
Init == ci \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup (IF T.events[l].ev = "Error" THEN {"raised." \o T.events[l].what} ELSE Clauses(T.events[l]))
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
