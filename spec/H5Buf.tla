------------------------------- MODULE H5Buf -------------------------------
(***************************************************************************)
(* The buffered writer (np2h5) and the buffered reader (h52np).            *)
(*                                                                         *)
(* Writer: rows are numbered as they are given; a write of n rows fills    *)
(* the buffer, which is dumped each time it is full; closing flushes it.   *)
(* A dataset of fixed size which is not exactly filled is reported.        *)
(* Reader: the buffer holds rows still to be given at its end; it is       *)
(* refilled when less than a quarter (Portion / 4) of it is occupied.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS BufLens, MaxRows, MaxWrite, Portions

VARIABLES mode, blen, fixed, size, buf, disk, given, closed, report,
          dpos, out, portion, lo, hi, stop
vars == <<mode, blen, fixed, size, buf, disk, given, closed, report, dpos, out, portion, lo, hi, stop>>

Rows(a, b) == [k \in 1..(b - a) |-> a + k]      \* rows a+1 .. b
Min2(a, b) == IF a < b THEN a ELSE b

Init ==
  \/ /\ mode = "write" /\ blen \in BufLens /\ fixed \in BOOLEAN
     /\ size \in (IF fixed THEN 1..MaxRows ELSE {0})
     /\ buf = <<>> /\ disk = <<>> /\ given = 0 /\ closed = FALSE /\ report = FALSE
     /\ dpos = 0 /\ out = <<>> /\ portion = 1 /\ lo = 0 /\ hi = 0 /\ stop = FALSE
  \/ /\ mode = "read" /\ blen \in BufLens /\ portion \in Portions
     /\ size \in 0..MaxRows /\ lo \in 0..size /\ hi \in lo..size
     /\ fixed = TRUE /\ disk = Rows(0, size) /\ given = 0 /\ closed = FALSE /\ report = FALSE
     /\ LET n == Min2(blen, hi - lo) IN buf = Rows(lo, lo + n) /\ dpos = lo + n
     /\ out = <<>> /\ stop = FALSE

(* the buffer is dumped each time it is full *)
RECURSIVE Dump(_, _)
Dump(d, b) == IF Len(b) < blen THEN <<d, b>>
              ELSE Dump(d \o SubSeq(b, 1, blen), SubSeq(b, blen + 1, Len(b)))
Write(n) == /\ mode = "write" /\ ~closed /\ given + n <= MaxRows
            /\ LET r == Dump(disk, buf \o Rows(given, given + n))
               IN disk' = r[1] /\ buf' = r[2]
            /\ given' = given + n
            /\ UNCHANGED <<mode, blen, fixed, size, closed, report, dpos, out, portion, lo, hi, stop>>
Close == /\ mode = "write" /\ ~closed /\ closed' = TRUE
         /\ disk' = disk \o buf /\ buf' = <<>>
         /\ report' = (fixed /\ Len(disk \o buf) # size)
         /\ UNCHANGED <<mode, blen, fixed, size, given, dpos, out, portion, lo, hi, stop>>

(* one turn of refilling *)
Refill(b, p) == IF p < hi /\ 4 * Len(b) < portion * blen
                THEN LET n == Min2(blen - Len(b), hi - p) IN <<b \o Rows(p, p + n), p + n>>
                ELSE <<b, p>>
RECURSIVE Take(_, _, _, _)     \* needed, got so far, buffer, position
Take(n, g, b, p) ==
  IF n = 0 \/ (b = <<>> /\ p = hi) THEN <<g, b, p>>
  ELSE LET k == Min2(n, Len(b))
           r == Refill(SubSeq(b, k + 1, Len(b)), p)
       IN Take(n - k, g \o SubSeq(b, 1, k), r[1], r[2])
Read(n) == /\ mode = "read" /\ ~stop
           /\ IF buf = <<>> /\ dpos = hi
              THEN stop' = TRUE /\ UNCHANGED <<out, buf, dpos>>
              ELSE LET r == Take(n, <<>>, buf, dpos)
                   IN out' = out \o r[1] /\ buf' = r[2] /\ dpos' = r[3] /\ stop' = FALSE
           /\ UNCHANGED <<mode, blen, fixed, size, disk, given, closed, report, portion, lo, hi>>
ReadBuffer == Read(Len(buf))

Next == Close \/ ReadBuffer \/ \E n \in 0..MaxWrite : Write(n) \/ (n > 0 /\ Read(n))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* what is on disk, then in the buffer, is what was given, in order *)
WrittenInOrder == mode = "write" => disk \o buf = Rows(0, given)
AllOnDisk == (mode = "write" /\ closed) => disk = Rows(0, given)
Reported == (mode = "write" /\ closed /\ fixed) => (report <=> given # size)
(* what was read, then the buffer, is the range, in order *)
ReadInOrder == mode = "read" => out \o buf = Rows(lo, dpos)
StopsAtEnd == stop => out = Rows(lo, hi)
(* the buffer is never empty before the end, otherwise reading would not progress *)
Progress == (mode = "read" /\ dpos < hi) => buf # <<>>
=============================================================================
