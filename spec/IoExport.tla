------------------------------ MODULE IoExport ------------------------------
(* Behaviours of H5Buf, ExtSort and Sampler, in a small scope, as inputs for
   the real code. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, SequencesExt, FiniteSetsExt, TLC

CONSTANTS MaxOps, MaxRows, MaxWrite, BufLens, SortN, SortKeys, SampleN

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Seqs(S, m) == UNION {[1..k -> S] : k \in 0..m}

(* the sizes of the successive writes, then the size declared (0: none) *)
Writes == {w \in Seqs(0..MaxWrite, MaxOps) : SumTo(w, Len(w)) <= MaxRows}
WriteCases == UNION {{[blen |-> b, ops |-> w, n |-> n] :
                 n \in {0} \cup {SumTo(w, Len(w)) + d : d \in {-1, 0, 1}}} : w \in Writes, b \in BufLens}
(* dataset size, range read, successive amounts (0: the whole buffer) *)
ReadCases == {[blen |-> b, size |-> s, lo |-> l, hi |-> h, amount |-> a] :
                b \in BufLens, s \in 0..MaxRows, l \in 0..MaxRows, h \in 0..MaxRows, a \in 0..MaxWrite}
SortCases == UNION {[1..n -> 0..SortKeys] : n \in 1..SortN}
SampleCases == {<<n, k, s>> : n \in 1..SampleN, k \in 0..SampleN, s \in {1, 2, 3, SampleN + 1}}

ASSUME JsonSerialize(IOEnv.OUT,
  [write |-> SetToSeq({c \in WriteCases : c.n >= 0}),
   read |-> SetToSeq({c \in ReadCases : c.lo <= c.hi /\ c.hi <= c.size}),
   sort |-> SetToSeq(SortCases),
   sample |-> SetToSeq({c \in SampleCases : c[2] <= c[1]})])


=============================================================================
