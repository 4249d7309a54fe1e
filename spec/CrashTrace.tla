----------------------------- MODULE CrashTrace -----------------------------
(***************************************************************************)
(* Validation of recorded runs: stage T.stage is killed at some point, the *)
(* stages after it are asked for with what is left, then it is asked for   *)
(* again.  have[s]: "whole" when the output of stage s is the one it has   *)
(* without a kill, "none" when there is none, "left" when it is what a     *)
(* killed stage left.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, have, bad
vars == <<ci, l, have, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}
Chain == <<"convert", "task", "dist", "score", "analyze">>
Stages == ToSet(Chain)
Needs(s) == CASE s = "dist" -> {"convert", "task"} [] s = "score" -> {"task", "dist"}
              [] s = "analyze" -> {"task", "score"} [] s = "verify" -> {"convert"} [] OTHER -> {}
(* e.res: "right", "wrong" or "failed" *)
Clauses(e) ==
  CASE e.ev = "Error" -> {"raised." \o e.what}
    [] e.ev = "Kill" -> Fail(e.same = 1, "input_changed." \o e.stage)
    [] e.ev = "Ask" ->
         Fail(~(e.res = "wrong" /\ \E s \in Needs(e.stage) : have[s] # "whole"), "taken_for_whole." \o e.stage) \cup
         Fail((\A s \in Needs(e.stage) : have[s] = "whole") => e.res = "right", "not_repaired." \o e.stage) \cup
         Fail(e.same = 1, "input_changed." \o e.stage)
    [] e.ev = "Again" ->   (* without removing what is left: refused, or right *)
         Fail(e.res # "wrong", "again." \o e.stage) \cup Fail(e.same = 1, "input_changed." \o e.stage)
Now(e) ==
  CASE e.ev = "Kill" -> [have EXCEPT ![e.stage] = IF e.died = 0 THEN "whole" ELSE "left"]
    [] e.ev \in {"Ask", "Again"} /\ e.stage \in Stages ->
         [have EXCEPT ![e.stage] = IF e.res = "right" THEN "whole" ELSE "left"]
    [] OTHER -> have
(* before: the stages before the killed one are done *)
Init == ci \in 1..Len(Cases) /\ l = 1 /\ bad = {}
        /\ have = [s \in Stages |-> IF Contains(T.done, s) THEN "whole" ELSE "none"]
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup Clauses(T.events[l])
        /\ have' = Now(T.events[l])
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A x \in bad : PrintT("BAD|" \o T.id \o "|" \o x)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, have, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
