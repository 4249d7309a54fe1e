----------------------------- MODULE AbxExport -----------------------------
(* writes the initial tasks of AbxTasks, to be run by the real code: the   *)
(* tasks without filter which have triplets, some which have none, and the *)
(* filters with the modes in which they are legal (a legal task is a task  *)
(* without filter plus a legal filter: see TaskOf and LegalTasks)          *)
EXTENDS AbxTasks, Json, IOUtils
Base == {t \in Tasks : t.fid = 0}
ASSUME LET s == SetToSeq({t \in Base : NbTripletsNoFilter(t) > 0})
           e == SetToSeq({t \in Base : NbTripletsNoFilter(t) = 0})
       IN JsonSerialize(IOEnv.OUT,
            [tasks |-> s, empty |-> e,
             filters |-> [k \in 1..18 |->
                [fid |-> k, filters |-> FilterOf(k),
                 modes |-> SetToSeq({m \in Modes : Legal(Mode(m), FilterOf(k))})]]])
ASSUME PrintT("EXPORTED")
=============================================================================
