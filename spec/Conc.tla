-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Two requests at the same time.  Each one makes a temporary file, opens  *)
(* an input, copies it to the temporary file, closes it, reads the         *)
(* temporary file again, removes it and writes its output.  With private   *)
(* names of temporary files (Shared = FALSE) and inputs opened for reading *)
(* (Exclusive = FALSE) no interleaving makes a request fail or read what   *)
(* the other one wrote; each of the two conditions is needed.  sched is    *)
(* the interleaving: which request does each of the steps.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shared, Exclusive, MaxSwitch, Export
VARIABLES pc, temps, holds, got, out, err, sched
vars == <<pc, temps, holds, got, out, err, sched>>
R == {1, 2}
Steps == <<"mktemp", "open", "copy", "close", "read", "remove", "write">>
Ended == Len(Steps) + 1
Name(r) == IF Shared THEN 1 ELSE r
Absent == {0}
Init == /\ pc = [r \in R |-> 1] /\ temps = [n \in {1, 2} |-> Absent] /\ holds = {}
        /\ got = [r \in R |-> {}] /\ out = [r \in R |-> {}] /\ err = [r \in R |-> 0] /\ sched = <<>>
Last(q) == q[Len(q)]
Switches == Cardinality({k \in 1..(Len(sched) - 1) : sched[k] # sched[k + 1]})
May(r) == pc[r] < Ended /\ (IF sched = <<>> THEN TRUE ELSE Last(sched) = r \/ Switches < MaxSwitch)
Fails(r) == \/ Steps[pc[r]] = "open" /\ Exclusive /\ holds # {}
            \/ Steps[pc[r]] \in {"copy", "read", "remove"} /\ temps[Name(r)] = Absent
Do(r) ==
  /\ May(r)
  /\ sched' = Append(sched, r)
  /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ LET k == Steps[pc[r]] n == Name(r) IN
     IF err[r] = 1 \/ Fails(r) THEN err' = [err EXCEPT ![r] = 1] /\ UNCHANGED <<temps, holds, got, out>>
     ELSE /\ err' = err
          /\ temps' = CASE k = "mktemp" -> [temps EXCEPT ![n] = {}]
                        [] k = "copy" -> [temps EXCEPT ![n] = @ \cup {r}]
                        [] k = "remove" -> [temps EXCEPT ![n] = Absent]
                        [] OTHER -> temps
          /\ holds' = CASE k = "open" -> holds \cup {r} [] k = "close" -> holds \ {r} [] OTHER -> holds
          /\ got' = IF k = "read" THEN [got EXCEPT ![r] = temps[n]] ELSE got
          /\ out' = IF k = "write" THEN [out EXCEPT ![r] = got[r]] ELSE out
Say == /\ Export /\ \A r \in R : pc[r] = Ended
       /\ PrintT("SCHED|" \o ToJson(sched)) /\ UNCHANGED vars
Next == (\E r \in R : Do(r)) \/ Say
Spec == Init /\ [][Next]_vars

NoFailure == \A r \in R : err[r] = 0
Alone == \A r \in R : pc[r] = Ended => out[r] = {r}
Clean == (\A r \in R : pc[r] = Ended) => \A n \in {1, 2} : temps[n] = Absent
=============================================================================
