------------------------------ MODULE FilesSem ------------------------------
(***************************************************************************)
(* The files of a project and what each stage does to them.  The content   *)
(* of a file is what it was made from:                                     *)
(*   <<>>           no such file                                           *)
(*   <<"T", p>>     task file for the specification p (3: refused)         *)
(*   <<"D", t, m>>  distances for the task content t, normalization m      *)
(*   <<"S", t, d>>  scores for t and the distance content d                *)
(*   <<"C", t, s>>  analysis of t with the scores s                        *)
(*   <<"P">>        what a failed operation left of its output, or a file    *)
(*                  which somebody else put there                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Names == {"data.abx", "out.abx", "res.distance", "data_res.score", "out_res.score", "my.score", "res.csv"}
Foreign == <<"P">>
Empty == [f \in Names |-> <<>>]
TaskFile(k) == IF k = 1 THEN "out.abx" ELSE "data.abx"
ScoreFile(o) == IF o.out = 1 THEN "my.score" ELSE IF o.t = 1 THEN "out_res.score" ELSE "data_res.score"

(* what an operation needs *)
Possible(c, o) ==
  CASE o.op = "task" -> TRUE
    [] o.op = "dist" -> TRUE
    [] o.op = "score" -> IF c["res.distance"] = <<>> \/ c[TaskFile(o.t)] = <<>> THEN TRUE ELSE c["res.distance"][2] = c[TaskFile(o.t)]
    [] o.op = "analyze" -> LET t == c[TaskFile(o.t)] s == c[ScoreFile(o)] IN
         IF t = <<>> \/ s = <<>> THEN o.how = "cli" ELSE s[2] = t

Refuse(c) == [c |-> c, ok |-> "no", warned |-> 0]
Leave(c) == [c |-> c, ok |-> "yes", warned |-> 0]
Write(c, f, x) == [c |-> [c EXCEPT ![f] = x], ok |-> "yes", warned |-> IF c[f] = <<>> THEN 0 ELSE 1]

(* the effect of an operation: new contents, success, must the replacement be announced *)
Exec(c, o) ==
  CASE o.op = "task" ->
         LET f == TaskFile(o.out) IN
         IF o.p = 3 THEN Refuse(c)
         ELSE IF o.stats = 1 THEN Leave(c)
         ELSE IF c[f] # <<>> /\ (o.how = "api" \/ o.out = 0) THEN Refuse(c)
         ELSE Write(c, f, <<"T", o.p>>)
    [] o.op = "dist" ->
         LET t == c[TaskFile(o.t)] IN
         IF t = <<>> \/ o.m = 0 THEN Refuse(c)
         ELSE IF c["res.distance"] # <<>> /\ o.how = "api" THEN Refuse(c)
         ELSE Write(c, "res.distance", <<"D", t, o.m>>)
    [] o.op = "score" ->
         LET t == c[TaskFile(o.t)] d == c["res.distance"] f == ScoreFile(o) IN
         IF t = <<>> \/ d = <<>> THEN Refuse(c)
         ELSE IF c[f] # <<>> /\ (o.how = "api" \/ o.out = 0) THEN Refuse(c)
         ELSE Write(c, f, <<"S", t, d>>)
    [] o.op = "analyze" ->
         LET t == c[TaskFile(o.t)] s == c[ScoreFile(o)] IN
         IF t = <<>> \/ s = <<>> THEN [Refuse(c) EXCEPT !.ok = "any"]
         ELSE LET w == Write(c, "res.csv", <<"C", t, s>>)
              IN IF o.how = "api" THEN [w EXCEPT !.warned = 0] ELSE w

(* an operation during which the storage fails: it reports a failure, and  *)
(* only what it was writing can be different                               *)
Target(o) == CASE o.op = "task" -> TaskFile(o.out) [] o.op = "dist" -> "res.distance"
               [] o.op = "score" -> ScoreFile(o) [] o.op = "analyze" -> "res.csv"
Writes(c, o) == Exec(c, o).ok = "yes" /\ ~(o.op = "task" /\ o.stats = 1)
Whole(c, o) == \A f \in Names : c[f] = <<"P">> => f = Target(o)

Ops ==
  {[op |-> "task", how |-> h, out |-> k, p |-> p, stats |-> s, t |-> 0, m |-> 1, j |-> 1] :
       h \in {"api", "cli"}, k \in {0, 1}, p \in {1, 2, 3}, s \in {0, 1}} \cup
  {[op |-> "dist", how |-> h, out |-> 0, p |-> 1, stats |-> 0, t |-> t, m |-> m, j |-> j] :
       h \in {"api", "cli"}, t \in {0, 1}, m \in {0, 1, 2}, j \in {1, 2}} \cup
  {[op |-> o, how |-> h, out |-> k, p |-> 1, stats |-> 0, t |-> t, m |-> 1, j |-> 1] :
       o \in {"score", "analyze"}, h \in {"api", "cli"}, k \in {0, 1}, t \in {0, 1}}
Legal == {o \in Ops : /\ (o.m = 0 => o.how = "cli") /\ (o.stats = 1 => o.how = "cli")
                      /\ (o.op = "dist" /\ o.m = 0 => o.j = 1)}
=============================================================================
