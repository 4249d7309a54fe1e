------------------------------- MODULE Files -------------------------------
(* Histories of operations on the files of a project.  hist is not part of *)
(* the view: one history is kept for each state, and one is printed for    *)
(* each transition.                                                        *)
EXTENDS FilesSem, TLC, Json

CONSTANTS Params, Norms, Jobs, Export, Failures, Puts
VARIABLES c, hist, last, failed, puts
vars == <<c, hist, last, failed, puts>>
View == <<c, failed, puts>>
Scope == {o \in Legal : o.p \in Params \cup {3} /\ o.m \in Norms \cup {0} /\ o.j \in Jobs}

Init == c = Empty /\ hist = <<>> /\ last = [ok |-> "yes", warned |-> 0] /\ failed = 0 /\ puts = 0
Do(o) == LET r == Exec(c, o) IN
  /\ Whole(c, o) /\ Possible(c, o) /\ UNCHANGED <<failed, puts>>
  /\ c' = r.c /\ hist' = Append(hist, o) /\ last' = [ok |-> r.ok, warned |-> r.warned]
  /\ (Export => PrintT("HIST|" \o (IF r.c = c THEN "0|" ELSE "1|") \o ToJson(hist')))
(* the storage fails during o *)
Break(o) ==
  /\ failed < Failures /\ failed' = failed + 1 /\ UNCHANGED puts /\ Whole(c, o) /\ Possible(c, o)
  /\ hist' = Append(hist, o) /\ last' = [ok |-> "failed", warned |-> 1]
  /\ IF Writes(c, o) THEN \E x \in {c[Target(o)], <<>>, <<"P">>} : c' = [c EXCEPT ![Target(o)] = x]
     ELSE UNCHANGED c
(* somebody else makes a file with the name of an output: an empty one,    *)
(* a text, an HDF5 file of another kind                                    *)
Put(f) == LET o == [op |-> "put", f |-> f] IN
  /\ puts < Puts /\ puts' = puts + 1 /\ c[f] = <<>> /\ UNCHANGED failed
  /\ c' = [c EXCEPT ![f] = Foreign] /\ hist' = Append(hist, o) /\ last' = [ok |-> "put", warned |-> 0]
  /\ (Export => PrintT("HIST|1|" \o ToJson(hist')))
Next == (\E o \in Scope : Do(o) \/ Break(o)) \/ (\E f \in Names : Put(f))
Spec == Init /\ [][Next]_vars

(* the results always belong together *)
Related == /\ \A f \in {"data_res.score", "out_res.score", "my.score"} : Len(c[f]) = 3 => c[f][3][2] = c[f][2]
           /\ Len(c["res.csv"]) = 3 => c["res.csv"][3][2] = c["res.csv"][2]
(* nothing is replaced or lost silently, nor by a refused operation *)
NoSilentLoss == [][\A f \in Names : (c[f] # <<>> /\ c'[f] # c[f]) => (last'.warned = 1 \/ (f = "res.csv" /\ last'.ok = "yes"))]_vars
RefusedIsHarmless == [][last'.ok \in {"no", "any"} => c' = c]_vars
NeverRemoved == [][last'.ok # "failed" => \A f \in Names : c[f] # <<>> => c'[f] # <<>>]_vars
(* a failure reaches one file at most, and the same request by the command  *)
(* line with a named output repairs it                                     *)
Contained == [][last'.ok = "failed" => Cardinality({f \in Names : c'[f] # c[f]}) <= 1]_vars
Repairable == \A f \in {"out.abx", "res.distance", "my.score"} : c[f] = <<"P">> =>
   \A o \in Legal : (Target(o) = f /\ o.how = "cli" /\ Whole(c, o) /\ Possible(c, o)
                        /\ o.p # 3 /\ o.stats = 0 /\ o.m # 0
                        /\ (o.op # "task" => c[TaskFile(o.t)] # <<>>)
                        /\ (o.op = "score" => c["res.distance"] # <<>>))
                     => Exec(c, o).ok = "yes" /\ Exec(c, o).c[f] # <<"P">>
=============================================================================
