---------------------------- MODULE LoaderExport ----------------------------
(* the initial states of Loader, as item files for the real code *)
EXTENDS LoaderCases, Json, IOUtils, TLC
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Cases))
ASSUME PrintT("EXPORTED")
=============================================================================
