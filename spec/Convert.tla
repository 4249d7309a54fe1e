------------------------------ MODULE Convert ------------------------------
(* Conversion of feature files by batches: the files are read one by one   *)
(* into a buffer, which is appended to the store when it has Batch files   *)
(* and at the end.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxFiles, MaxBatch
VARIABLES n, batch, i, buf, store, done
vars == <<n, batch, i, buf, store, done>>
Init == n \in 0..MaxFiles /\ batch \in 1..MaxBatch /\ i = 1 /\ buf = <<>> /\ store = <<>> /\ done = FALSE
Flush == /\ ~done /\ Len(buf) = batch
         /\ store' = store \o buf /\ buf' = <<>> /\ UNCHANGED <<n, batch, i, done>>
Read == /\ ~done /\ i <= n /\ Len(buf) < batch
        /\ buf' = Append(buf, i) /\ i' = i + 1 /\ UNCHANGED <<n, batch, store, done>>
End == /\ ~done /\ i = n + 1 /\ store' = store \o buf /\ buf' = <<>> /\ done' = TRUE
       /\ UNCHANGED <<n, batch, i>>
Next == Flush \/ Read \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoLoss == store \o buf = [k \in 1..(i - 1) |-> k]
Complete == done => store = [k \in 1..n |-> k]
Bounded == Len(buf) <= batch
Ends == <>done
=============================================================================
