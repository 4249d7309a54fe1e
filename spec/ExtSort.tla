------------------------------ MODULE ExtSort ------------------------------
(***************************************************************************)
(* The external sort: chunks of ChunkRows rows are sorted one by one, then *)
(* merged through input buffers of InRows rows: at each turn, every row of *)
(* the buffers not greater than the smallest last key of the buffers is    *)
(* output, in order; when all the chunks are entirely in the buffers, the  *)
(* rest is output.  Companion datasets follow the key.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS MaxN, MaxKey, ChunkSizes, InSizes

VARIABLES key, chunk, inrows, chunks, pos, phase, out
vars == <<key, chunk, inrows, chunks, pos, phase, out>>

Min2(a, b) == IF a < b THEN a ELSE b
(* a row: its key and its identity *)
SortRows(s) == SortSeq(s, LAMBDA a, b : a.k < b.k \/ (a.k = b.k /\ a.i < b.i))
RowSeq == [i \in 1..Len(key) |-> [k |-> key[i], i |-> i]]
NChunks == (Len(key) + chunk - 1) \div chunk

Init == /\ key \in UNION {[1..n -> 0..MaxKey] : n \in 1..MaxN}
        /\ chunk \in ChunkSizes /\ inrows \in InSizes
        /\ chunks = <<>> /\ pos = <<>> /\ phase = "cut" /\ out = <<>>

Cut == /\ phase = "cut"
       /\ IF Len(chunks) < NChunks
          THEN LET c == Len(chunks) IN
               chunks' = Append(chunks, SortRows(SubSeq(RowSeq, c * chunk + 1, Min2((c + 1) * chunk, Len(key)))))
               /\ UNCHANGED <<pos, phase>>
          ELSE phase' = "merge" /\ pos' = [c \in 1..NChunks |-> 0] /\ UNCHANGED chunks
       /\ UNCHANGED <<key, chunk, inrows, out>>

(* rows of chunk c in its buffer: the inrows next ones (the buffer is
   refilled at every read here; the real policy keeps at least a quarter) *)
Held(c) == SubSeq(chunks[c], pos[c] + 1, Min2(pos[c] + inrows, Len(chunks[c])))
AllHeld == \A c \in 1..NChunks : pos[c] + inrows >= Len(chunks[c])
Tail1(c) == Held(c)[Len(Held(c))].k
Merge == /\ phase = "merge"
         /\ IF AllHeld
            THEN out' = out \o SortRows(FlattenSeq([c \in 1..NChunks |-> Held(c)]))
                 /\ phase' = "done" /\ UNCHANGED pos
            ELSE LET m == Min({Tail1(c) : c \in {d \in 1..NChunks : Held(d) # <<>>}})
                     take == [c \in 1..NChunks |-> SelectSeq(Held(c), LAMBDA r : r.k <= m)]
                 IN /\ out' = out \o SortRows(FlattenSeq(take))
                    /\ pos' = [c \in 1..NChunks |-> pos[c] + Len(take[c])]
                    /\ UNCHANGED phase
         /\ UNCHANGED <<key, chunk, inrows, chunks>>
Next == Cut \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Increasing == \A j \in 1..(Len(out) - 1) : out[j].k <= out[j + 1].k
KeptTogether == \A j \in 1..Len(out) : out[j].k = key[out[j].i]
NoRepetition == \A j, m \in 1..Len(out) : j # m => out[j].i # out[m].i
Complete == phase = "done" => Len(out) = Len(key)
Ends == <>(phase = "done")
=============================================================================
