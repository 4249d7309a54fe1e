----------------------------- MODULE CliExport -----------------------------
(* The requests of the command line tools, with their arguments. *)
EXTENDS CliSem, Json, IOUtils, TLC
CONSTANTS Styles

(* ways of writing: layout, long names, verbose, temporary directory, output *)
Style(k) ==
  CASE k = 1 -> [layout |-> 0, long |-> 0, verbose |-> 0, tmp |-> "", out |-> 0]
    [] k = 2 -> [layout |-> 1, long |-> 1, verbose |-> 0, tmp |-> "", out |-> 1]
    [] k = 3 -> [layout |-> 2, long |-> 0, verbose |-> 1, tmp |-> "TMP", out |-> 0]
    [] k = 4 -> [layout |-> 3, long |-> 1, verbose |-> 0, tmp |-> "TMP", out |-> 1]
    [] k = 5 -> [layout |-> 0, long |-> 1, verbose |-> 1, tmp |-> "", out |-> 1]
    [] k = 6 -> [layout |-> 3, long |-> 0, verbose |-> 0, tmp |-> "TMP", out |-> 0]
AcrossBy == { << <<>>, <<>> >>, << <<"c2">>, <<>> >>, << <<"c3">>, <<>> >>, << <<>>, <<"c2">> >>, << <<>>, <<"c3">> >>,
              << <<"c2">>, <<"c3">> >>, << <<"c3">>, <<"c2">> >>, << <<"c2", "c3">>, <<>> >>, << <<>>, <<"c3", "c2">> >> }
Thr == {<<"", "">>, <<"2", "7">>, <<"1", "0">>, <<"", "3">>}
TaskReq == {
   [tool |-> "task", on |-> "c1", across |-> ab[1], by |-> ab[2], filters |-> f, regs |-> r, thr |-> t[1], seed |-> t[2],
    tmp |-> Style(k).tmp, stats |-> st, verbose |-> Style(k).verbose, out |-> Style(k).out,
    layout |-> Style(k).layout, long |-> Style(k).long] :
     ab \in AcrossBy, f \in {<<>>, <<"F1">>, <<"F2", "F1">>}, r \in {<<>>, <<"c2_A">>, <<"c3_X", "c2_B">>},
     t \in Thr, st \in {0, 1}, k \in Styles}
DistReq == {[tool |-> "distance", norm |-> n, dist |-> d, jobs |-> j, group |-> g, layout |-> l, long |-> k] :
     n \in {"", "0", "1", "2"}, d \in {"", "levenshtein", "dtw_kl", "mydist.fun"}, j \in {"", "1", "2"},
     g \in {"", "other"}, l \in {0, 2}, k \in {0, 1}}
ScoreReq == {[tool |-> "score", out |-> o, layout |-> 0, long |-> 0] : o \in {0, 1}}
AnalyzeReq == {[tool |-> "analyze", out |-> 1, layout |-> 0, long |-> 0]}
With(S) == {[req |-> q, args |-> Args(q)] : q \in S}
ASSUME JsonSerialize(IOEnv.OUT,
  [task |-> SetToSeq(With(TaskReq)), distance |-> SetToSeq(With(DistReq)),
   score |-> SetToSeq(With(ScoreReq)), analyze |-> SetToSeq(With(AnalyzeReq))])
ASSUME PrintT("EXPORTED")
=============================================================================
