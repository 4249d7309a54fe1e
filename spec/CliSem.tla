------------------------------- MODULE CliSem -------------------------------
(***************************************************************************)
(* The command lines of the tools: for a request q (what is asked), the    *)
(* arguments which ask it, in any of the layouts, and the files written.   *)
(* Tokens in capitals stand for file names; F1.. are filters.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Opt(q, short, long) == IF q.long = 1 THEN long ELSE short
Some(name, vals) == IF vals = <<>> THEN <<>> ELSE <<name>> \o vals
One(name, v) == IF v = "" THEN <<>> ELSE <<name, v>>

TaskOptions(q) ==
  << Some(Opt(q, "-o", "--on"), <<q.on>>), Some(Opt(q, "-a", "--across"), q.across),
     Some(Opt(q, "-b", "--by"), q.by), Some(Opt(q, "-f", "--filters"), q.filters),
     Some(Opt(q, "-r", "--regressors"), q.regs), One(Opt(q, "-t", "--threshold"), q.thr),
     One("--seed", q.seed), One("--tempdir", q.tmp),
     IF q.stats = 1 THEN <<"--stats-only">> ELSE <<>>,
     IF q.verbose = 1 THEN <<Opt(q, "-v", "--verbose")>> ELSE <<>> >>
Files(q) == <<"ITEM">> \o (IF q.out = 1 THEN <<"OUT">> ELSE <<>>)
(* layouts: files first, or last after "--"; options in order or reversed *)
Options(q) == FlattenSeq(IF q.layout \in {1, 3} THEN Reverse(TaskOptions(q)) ELSE TaskOptions(q))
TaskArgs(q) == IF q.layout \in {0, 1} THEN Files(q) \o Options(q) ELSE Options(q) \o <<"--">> \o Files(q)

DistArgs(q) ==
  LET o == One(Opt(q, "-n", "--normalization"), q.norm) \o One(Opt(q, "-d", "--distance"), q.dist)
           \o One(Opt(q, "-j", "--njobs"), q.jobs) \o One(Opt(q, "-g", "--group"), q.group)
      f == <<"FEAT", "TASK", "OUT">>
  IN IF q.layout \in {0, 1} THEN f \o o ELSE o \o f
(* the normalization has to be given with the default distance *)
DistRefused(q) == q.dist = "" /\ q.norm = ""
ScoreArgs(q) == <<"TASK", "DIST">> \o (IF q.out = 1 THEN <<"OUT">> ELSE <<>>)
AnalyzeArgs(q) == <<"SCORE", "TASK", "OUT">>

Args(q) == CASE q.tool = "task" -> TaskArgs(q) [] q.tool = "distance" -> DistArgs(q)
             [] q.tool = "score" -> ScoreArgs(q) [] q.tool = "analyze" -> AnalyzeArgs(q)
=============================================================================
