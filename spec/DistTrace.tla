----------------------------- MODULE DistTrace -----------------------------
(***************************************************************************)
(* Validation of recorded distance runs.                                   *)
(*                                                                         *)
(* A case has: feats[f], the frames [t, v] of source f (times and values   *)
(* integers); blocks, one for each by value, [base, plo, codes, items],    *)
(* items[k] = <<f, onset, offset>>; norm, the normalization argument       *)
(* (-1: none); and the events, in the order they were logged:              *)
(*   Jobs   a partition of the pairs (spans [by, lo, hi) given to workers) *)
(*   Open/Close  of a file (f) by a process (w), mode m = "r" or "w"       *)
(*   Fault  an injected failure;  Dead  a process was killed               *)
(*   End    outcome of the call: ok, error, hang, killed                   *)
(*   File   the distance file: exists, done, d (values, scaled)            *)
(* The distance function of the runs is                                    *)
(*   D(x, y) = 3 W(x) + W(y) + norm, W weighting the frames by their rank: *)
(* it tells which frames it got, in which order, and of which item.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, l, open, fault, outcome, bad
vars == <<ci, l, open, fault, outcome, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)

Frames(i) == SelectSeq(T.feats[i[1]], LAMBDA fr : i[2] <= fr.t /\ fr.t <= i[3])
W(i) == LET x == Frames(i) IN
        SumTo([k \in 1..Len(x) |-> k * (x[k].v[1] + 10 * x[k].v[2])], Len(x)) + 100 * Len(x)
Norm == CASE T.norm = -1 -> 0 [] T.norm = 0 -> 100000 [] OTHER -> 200000
NPairs == SumTo([k \in 1..Len(T.blocks) |-> Len(T.blocks[k].codes)], Len(T.blocks))

(* the value of each pair, in the order of the pair list *)
Values(d) == \A n \in 1..Len(T.blocks) :
  LET b == T.blocks[n]
      w == [k \in 1..Len(b.items) |-> W(b.items[k])]
  IN \A k \in 1..Len(b.codes) :
       d[b.plo + k] = 3 * w[(b.codes[k] % b.base) + 1] + w[(b.codes[k] \div b.base) + 1] + Norm

Partition(e) == \A n \in 1..Len(e.sizes) :
  LET S == {k \in 1..Len(e.spans) : e.spans[k][1] = n} IN
  /\ \A k \in S : 0 <= e.spans[k][2] /\ e.spans[k][2] < e.spans[k][3] /\ e.spans[k][3] <= e.sizes[n]
  /\ \A j, k \in S : j < k => (e.spans[j][3] <= e.spans[k][2] \/ e.spans[k][3] <= e.spans[j][2])
  /\ FoldSet(LAMBDA k, acc : acc + e.spans[k][3] - e.spans[k][2], 0, S) = e.sizes[n]

(* no process may have a file open while another one can write in it *)
Clash(e) == \E o \in open : o.f = e.f /\ o.w # e.w /\ (o.m = "w" \/ e.m = "w")

Clauses(e) ==
  CASE e.ev = "Error" -> {"raised." \o e.what}
    [] e.ev = "Jobs"  -> Fail(Partition(e), "partition")
    [] e.ev = "Open"  -> Fail(~Clash(e), "overlap")
    [] e.ev = "End"   ->
         IF fault = "none" THEN Fail(e.outcome = "ok", "outcome." \o e.outcome)
         ELSE Fail(e.outcome # "hang", "hang")
              \cup Fail(e.outcome # "ok", "failure_not_reported")
    [] e.ev = "File"  ->
         IF outcome = "ok"
         THEN Fail(e.done = 1, "not_done")
              \cup (IF Len(e.d) # NPairs THEN {"size"} ELSE Fail(Values(e.d), "value"))
         ELSE (* done only when every pair is there *)
              Fail(e.done = 1 => (Len(e.d) = NPairs /\ Values(e.d) /\ fault # "distance"), "done_too_early")
    [] OTHER -> {}

Init == ci \in 1..Len(Cases) /\ l = 1 /\ open = {} /\ fault = "none" /\ outcome = "none" /\ bad = {}
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ LET e == T.events[l] IN
           /\ bad' = bad \cup Clauses(e)
           /\ open' = (CASE e.ev = "Open"  -> open \cup {[w |-> e.w, f |-> e.f, m |-> e.m, h |-> e.h]}
                         [] e.ev = "Close" -> {o \in open : ~(o.w = e.w /\ o.h = e.h)}
                         [] e.ev = "Dead"  -> {o \in open : o.w # e.w}
                         [] OTHER -> open)
           /\ fault' = (IF e.ev = "Fault" THEN e.what ELSE fault)
           /\ outcome' = (IF e.ev = "End" THEN e.outcome ELSE outcome)
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, open, fault, outcome, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
