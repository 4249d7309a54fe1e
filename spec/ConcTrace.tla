----------------------------- MODULE ConcTrace ------------------------------
(***************************************************************************)
(* Validation of two recorded requests that ran at the same time.  Files   *)
(* are numbers; T.inputs those which were there before, T.outs[r] what     *)
(* request r is asked to write.  own[f] is the request which made f.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, own, bad
vars == <<ci, l, own, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}
Inputs == ToSet(T.inputs)
Owner(f) == IF Contains(T.inputs, f) THEN 0 ELSE own[f]
Other(r) == 3 - r
(* wr: opened for writing; rd: opened for reading; mk: made as new;        *)
(* rm: removed                                                             *)
Clauses(e) ==
  CASE e.ev = "Error" -> {"raised." \o e.what}
    [] e.ev = "File" ->
       LET o == Owner(e.f) IN
       Fail(~(e.op \in {"wr", "rm"} /\ o = 0), "input." \o e.op) \cup
       Fail(o # Other(e.r), "of_the_other." \o e.op) \cup
       Fail(~(e.op = "mk" /\ o \in {0, 1, 2}), "name_taken")
    [] e.ev = "End" ->
       UNION {Fail(e.solo_ok[r] = 1, "fails_alone") \cup Fail(e.ok[r] = 1, "fails") \cup
              Fail(e.ok[r] = 1 => e.dig[r] = e.solo[r], "differs_from_alone") : r \in 1..2} \cup
       Fail(e.same = 1, "input_changed") \cup
       Fail(ToSet(e.left) \subseteq ToSet(T.outs), "left_behind")
Owns(e) ==
  IF e.ev # "File" THEN own
  ELSE IF e.op \in {"wr", "mk"} /\ Owner(e.f) = 3 THEN [own EXCEPT ![e.f] = e.r]
  ELSE IF e.op = "rm" /\ Owner(e.f) # 0 THEN [own EXCEPT ![e.f] = 3]
  ELSE own
Init == ci \in 1..Len(Cases) /\ l = 1 /\ bad = {} /\ own = [f \in 1..T.files |-> 3]
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup Clauses(T.events[l])
        /\ own' = Owns(T.events[l])
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A x \in bad : PrintT("BAD|" \o T.id \o "|" \o x)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, own, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
