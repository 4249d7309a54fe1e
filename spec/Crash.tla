------------------------------- MODULE Crash -------------------------------
(***************************************************************************)
(* Stages 1..N, each reading the output of the one before, and killed at   *)
(* any of their steps.  An output is absent, or has its first k parts (0:  *)
(* just made) of version v of its input, and a mark that says if it is     *)
(* whole.  A stage refuses an input without the mark (Mark = TRUE), so     *)
(* what it makes is made of whole inputs.  A stage can be started again    *)
(* after its output is removed.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, Parts, MaxKills, Mark
VARIABLES file, run, kills
vars == <<file, run, kills>>
Absent == [parts |-> -1, mark |-> FALSE, pure |-> TRUE]
Whole(f) == f.parts = Parts /\ f.mark
(* run = 0: nothing runs; otherwise the stage which runs *)
Init == file = [s \in 0..N |-> IF s = 0 THEN [parts |-> Parts, mark |-> TRUE, pure |-> TRUE] ELSE Absent]
        /\ run = 0 /\ kills = 0
Accepts(s) == file[s - 1].parts >= 0 /\ (Mark => file[s - 1].mark)
Begin(s) == /\ run = 0 /\ file[s].parts = -1 /\ Accepts(s)
            /\ run' = s
            /\ file' = [file EXCEPT ![s] = [parts |-> 0, mark |-> FALSE,
                                            pure |-> Whole(file[s - 1]) /\ file[s - 1].pure]]
            /\ UNCHANGED kills
Step == /\ run > 0
        /\ IF file[run].parts < Parts
           THEN file' = [file EXCEPT ![run].parts = @ + 1] /\ run' = run
           ELSE file' = [file EXCEPT ![run].mark = TRUE] /\ run' = 0
        /\ UNCHANGED kills
Kill == run > 0 /\ kills < MaxKills /\ kills' = kills + 1 /\ run' = 0 /\ file' = file
Remove(s) == run = 0 /\ file[s].parts >= 0 /\ file' = [file EXCEPT ![s] = Absent] /\ UNCHANGED <<run, kills>>
Next == Step \/ Kill \/ \E s \in 1..N : Begin(s) \/ Remove(s)
Spec == Init /\ [][Next]_vars
(* what looks whole is made of whole inputs *)
Pure == \A s \in 1..N : Whole(file[s]) => file[s].pure
(* what is whole stays so until it is removed *)
Kept == [][\A s \in 1..N : Whole(file[s]) => (file'[s] = file[s] \/ file'[s] = Absent)]_vars
(* a killed stage can be done again *)
Repairable == \A s \in 1..N : (run = 0 /\ Whole(file[s - 1]) /\ file[s].parts = -1) => ENABLED Begin(s)
=============================================================================
