------------------------------ MODULE DistJobs ------------------------------
(***************************************************************************)
(* A distance run: the pairs of each by value are cut into blocks, the     *)
(* blocks given to workers; each worker, for each of its blocks, reads the *)
(* pairs under the lock, computes, writes the distances under the lock.    *)
(* A worker can fail (an exception in its computation, read or write) or   *)
(* die (killed) at any of its steps.  A write replaces the file by what    *)
(* was there when it was opened, plus the block: overlapping writes lose   *)
(* results, which is why the lock is there.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS ById,      \* which sizes, see ByPairs
          Cpus,      \* numbers of workers considered
          MaxBlock,  \* largest block (memory bound)
          Faults,    \* subset of {"raise", "die"}
          Locking    \* TRUE in the design, FALSE to show what the lock is for

(* number of pairs of each by value *)
ByPairs == CASE ById = 1 -> <<3, 2>> [] ById = 2 -> <<1, 1>> [] ById = 3 -> <<5>>
             [] ById = 4 -> <<2, 1, 2>> [] ById = 5 -> <<1>> [] OTHER -> <<4, 3>>

RECURSIVE SumSeqTo(_, _)
SumSeqTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeqTo(s, k - 1)
Total == SumSeqTo(ByPairs, Len(ByPairs))
Pairs == 1..Total
Min2(a, b) == IF a < b THEN a ELSE b

(* cut of n pairs starting after off in blocks of at most m *)
RECURSIVE Cut(_, _, _)
Cut(off, n, m) == IF n = 0 THEN <<>>
                  ELSE LET k == Min2(n, m) IN << <<off + 1, off + k>> >> \o Cut(off + k, n - k, m)
Blocks(c) == LET m == Min2((Total + c - 1) \div c, MaxBlock)
             IN FlattenSeq([b \in 1..Len(ByPairs) |-> Cut(SumSeqTo(ByPairs, b - 1), ByPairs[b], m)])
Span(b) == b[1]..b[2]

VARIABLES ncpu, todo, pc, cur, lock, disk, snap, main, done
vars == <<ncpu, todo, pc, cur, lock, disk, snap, main, done>>
W == 1..ncpu

(* any assignment of the blocks to the workers *)
Init == /\ ncpu \in Cpus
        /\ \E g \in [1..Len(Blocks(ncpu)) -> 1..ncpu] :
             todo = [w \in 1..ncpu |-> SelectSeq([k \in 1..Len(Blocks(ncpu)) |-> k], LAMBDA k : g[k] = w)]
        /\ pc = [w \in 1..ncpu |-> "next"]
        /\ cur = [w \in 1..ncpu |-> 0]
        /\ lock = 0
        /\ disk = {}                   \* pairs whose distance is in the file
        /\ snap = [w \in 1..ncpu |-> {}]
        /\ main = "run" /\ done = FALSE

Free == lock = 0 \/ ~Locking
Take(w) == lock' = IF Locking THEN w ELSE lock
Release(w) == lock' = IF lock = w THEN 0 ELSE lock
Go(w, a, b) == pc[w] = a /\ pc' = [pc EXCEPT ![w] = b] /\ main = "run"

Start(w) == /\ Go(w, "next", IF todo[w] = <<>> THEN "end" ELSE "rwait")
            /\ IF todo[w] = <<>> THEN UNCHANGED <<cur, todo>>
               ELSE cur' = [cur EXCEPT ![w] = Head(todo[w])] /\ todo' = [todo EXCEPT ![w] = Tail(todo[w])]
            /\ UNCHANGED <<ncpu, lock, disk, snap, main, done>>
OpenRead(w) == Go(w, "rwait", "read") /\ Free /\ Take(w) /\ UNCHANGED <<ncpu, todo, cur, disk, snap, main, done>>
CloseRead(w) == Go(w, "read", "comp") /\ Release(w) /\ UNCHANGED <<ncpu, todo, cur, disk, snap, main, done>>
Compute(w) == Go(w, "comp", "wwait") /\ UNCHANGED <<ncpu, todo, cur, lock, disk, snap, main, done>>
OpenWrite(w) == /\ Go(w, "wwait", "write") /\ Free /\ Take(w)
                /\ snap' = [snap EXCEPT ![w] = disk]
                /\ UNCHANGED <<ncpu, todo, cur, disk, main, done>>
CloseWrite(w) == /\ Go(w, "write", "next") /\ Release(w)
                 /\ disk' = snap[w] \cup Span(Blocks(ncpu)[cur[w]])
                 /\ cur' = [cur EXCEPT ![w] = 0]
                 /\ UNCHANGED <<ncpu, todo, snap, main, done>>
(* an exception: the lock is released on the way out *)
Raise(w) == /\ "raise" \in Faults /\ main = "run"
            /\ pc[w] \in {"read", "comp", "write"}
            /\ pc' = [pc EXCEPT ![w] = "failed"]
            /\ Release(w)
            /\ UNCHANGED <<ncpu, todo, cur, disk, snap, main, done>>
(* a killed worker keeps the lock *)
Die(w) == /\ "die" \in Faults /\ main = "run"
          /\ pc[w] \notin {"failed", "dead", "end"}
          /\ pc' = [pc EXCEPT ![w] = "dead"]
          /\ UNCHANGED <<ncpu, todo, cur, lock, disk, snap, main, done>>
(* the parent: ends well when all the workers did; when one died it stops the others *)
Finish == /\ main = "run" /\ \A w \in W : pc[w] = "end"
          /\ main' = "ok" /\ done' = TRUE
          /\ UNCHANGED <<ncpu, todo, pc, cur, lock, disk, snap>>
Fail == /\ main = "run"
        /\ \/ \E w \in W : pc[w] = "dead"
           \/ (\A w \in W : pc[w] \in {"end", "failed"}) /\ (\E w \in W : pc[w] = "failed")
        /\ main' = "error"
        /\ UNCHANGED <<ncpu, todo, pc, cur, lock, disk, snap, done>>

Next == Finish \/ Fail \/ \E w \in W : \/ Start(w) \/ OpenRead(w) \/ CloseRead(w) \/ Compute(w)
                                      \/ OpenWrite(w) \/ CloseWrite(w) \/ Raise(w) \/ Die(w)
Fair == /\ WF_vars(Finish) /\ WF_vars(Fail)
        /\ \A w \in 1..3 : WF_vars(w \in W /\ (Start(w) \/ OpenRead(w) \/ CloseRead(w) \/ Compute(w)
                                             \/ OpenWrite(w) \/ CloseWrite(w)))
Spec == Init /\ [][Next]_vars /\ Fair

---------------------------------------------------------------------------
(* the blocks are a partition of the pairs, none crosses a by value *)
Partition == LET B == Blocks(ncpu) IN
  /\ \A p \in Pairs : Cardinality({k \in 1..Len(B) : p \in Span(B[k])}) = 1
  /\ \A k \in 1..Len(B) : \E b \in 1..Len(ByPairs) :
        Span(B[k]) \subseteq (SumSeqTo(ByPairs, b - 1) + 1)..SumSeqTo(ByPairs, b)
Exclusive == \A v, w \in W : v # w => ~(pc[v] \in {"read", "write"} /\ pc[w] \in {"read", "write"})
NothingLost == LET B == Blocks(ncpu)
                   left == UNION {{todo[v][i] : i \in 1..Len(todo[v])} : v \in W} \cup {cur[v] : v \in W}
               IN \A k \in 1..Len(B) : k \notin left => Span(B[k]) \subseteq disk
DoneMeansComplete == done => disk = Pairs
FailureMeansNotDone == (\E w \in W : pc[w] \in {"failed", "dead"}) => ~done
Ends == <>(main # "run")
FailureReported == (\E w \in 1..3 : w \in W /\ pc[w] \in {"failed", "dead"}) ~> (main = "error")
=============================================================================
