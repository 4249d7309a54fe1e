---------------------------- MODULE AbxPipeline ----------------------------
(***************************************************************************)
(* The ABX pipeline, shaped like the implementation: by blocks with local  *)
(* item numbers, generic filters applied to a block, then on/across blocks *)
(* processed in any order, filters applied as early as their variables are *)
(* known, a factorial design decoded from a linear index, thresholding by  *)
(* cell, pairs coded in base n, searched by bisection, scores, and the     *)
(* collapse through a mixed radix key.  The invariants say that the result *)
(* is the declarative one of AbxSem.                                       *)
(***************************************************************************)
EXTENDS AbxTasks

CONSTANT DistIds

---------------------------------------------------------------------------
(* By blocks with local numbering 0..k-1 *)

ByBlock(t, key) == SelectSeq([i \in 1..Len(t.items) |-> i], LAMBDA i : ByKey(t, i) = key)
LocalOf(t, i) == Cardinality({j \in Items(t) : j < i /\ SameBy(t, i, j)})
GlobalOf(t, key, loc) == ByBlock(t, key)[loc + 1]

(* stage at which a filter is applied: as soon as its variables are known *)
IsBy(t, v) == t.role[v.col] = "by"
Resolved(t, v) == IF v.ext = "2" THEN (IF t.role[v.col] = "on" THEN "B" ELSE "X") ELSE v.ext
OnAcrossKnown(t, v) ==
  \/ v.ext = "1"
  \/ v.ext \in {"A", "X"} /\ t.role[v.col] = "on"
FreeVars(t, f) == {v \in {f.vars[k] : k \in 1..Len(f.vars)} : ~IsBy(t, v)}
Stage(t, f) ==
  LET free == FreeVars(t, f) IN
  IF free = {} THEN "by"
  ELSE IF \E v \in free : v.ext = "" THEN "generic"
  ELSE LET rest == {Resolved(t, v) : v \in {w \in free : ~OnAcrossKnown(t, w)}} IN
       IF rest = {} THEN "block"
       ELSE IF Cardinality(rest) = 1 THEN (CHOOSE e \in rest : TRUE)
       ELSE "ABX"
FiltersAt(t, s) == SelectSeq(t.filters, LAMBDA f : Stage(t, f) = s)
AllHold(t, fs, a, b, x) == \A k \in 1..Len(fs) : PredAt(t, fs[k], a, b, x)

---------------------------------------------------------------------------
VARIABLES task,     \* the task being run (constant along a behaviour)
          stage,    \* "gen", "pairs", "score", "csv", "done"
          todo,     \* on/across blocks not yet processed
          emitted,  \* set of triplets written so far
          nrows,    \* number of rows written so far
          pairs,    \* by key -> sorted sequence of pair codes
          scores,   \* triplet -> score
          csv       \* set of [by, regs, n, sum]
vars == <<task, stage, todo, emitted, nrows, pairs, scores, csv>>

(* the database left in a by block by the by and generic filters *)
Survivors(t, key) ==
  {i \in Items(t) : ByKey(t, i) = key
                    /\ AllHold(t, FiltersAt(t, "by"), i, i, i)
                    /\ AllHold(t, FiltersAt(t, "generic"), i, i, i)}

BlockKey(t, i) == << ByKey(t, i), L(t, i, t.on),
                     IF t.across = <<>> THEN <<i>> ELSE AcrossKey(t, i) >>
Blocks(t) == {BlockKey(t, i) : i \in UNION {Survivors(t, k) : k \in ByKeys(t)}}

Init == /\ task \in LegalTasks
        /\ stage = "gen"
        /\ todo = Blocks(task)
        /\ emitted = {} /\ nrows = 0
        /\ pairs = <<>> /\ scores = <<>> /\ csv = {}

SortedSeq(S) == SetToSortSeq(S, LAMBDA u, w : u < w)

(* factorial design of an on/across block, decoded from a linear index *)
BlockTriplets(t, blk) ==
  LET db   == Survivors(t, blk[1])
      A0   == {i \in db : BlockKey(t, i) = blk}
      onS  == {i \in db : L(t, i, t.on) = blk[2]}
      B0   == IF t.across = <<>> THEN db \ onS
              ELSE {i \in db : AcrossKey(t, i) = blk[3]} \ A0
      X0   == IF Len(t.across) > 1
              THEN {i \in onS : \A k \in 1..Len(t.across) : L(t, i, t.across[k]) # blk[3][k]}
              ELSE onS \ A0
      rep  == CHOOSE i \in A0 : TRUE
      As   == SortedSeq({a \in A0 : AllHold(t, FiltersAt(t, "A"), a, rep, rep)})
      Bs   == SortedSeq({b \in B0 : AllHold(t, FiltersAt(t, "B"), rep, b, rep)})
      Xs   == SortedSeq({x \in X0 : AllHold(t, FiltersAt(t, "X"), rep, rep, x)})
      size == Len(As) * Len(Bs) * Len(Xs)
      Tri(k) == << As[(k \div (Len(Bs) * Len(Xs))) + 1],
                   Bs[((k \div Len(Xs)) % Len(Bs)) + 1],
                   Xs[(k % Len(Xs)) + 1] >>
  IN IF ~AllHold(t, FiltersAt(t, "block"), rep, rep, rep) THEN <<>>
     ELSE SelectSeq([k \in 1..size |-> Tri(k - 1)],
                    LAMBDA tr : AllHold(t, FiltersAt(t, "ABX"), tr[1], tr[2], tr[3]))

Sel(t, S) == IF t.thr = 0 THEN {S}
             ELSE LET cells == {CellOf(t, tr) : tr \in S}
                      Members(c) == {tr \in S : CellOf(t, tr) = c}
                      Picks(c) == kSubset(Min2(t.thr, Cardinality(Members(c))), Members(c))
                  IN {UNION Range(g) : g \in {h \in [cells -> SUBSET S] :
                                                 \A c \in cells : h[c] \in Picks(c)}}

GenBlock ==
  /\ stage = "gen"
  /\ \E blk \in todo :
       LET tr == BlockTriplets(task, blk) IN
       \E kept \in Sel(task, Range(tr)) :
         /\ emitted' = emitted \cup kept
         /\ nrows' = nrows + (IF task.thr = 0 THEN Len(tr) ELSE Cardinality(kept))
         /\ todo' = todo \ {blk}
  /\ UNCHANGED <<task, stage, pairs, scores, csv>>

Keys(t) == {ByKey(t, tr[1]) : tr \in emitted}
Base(t, key) == 1 + SetMax({LocalOf(t, i) : i \in Survivors(t, key)})
Code(t, i, x) == LocalOf(t, i) + Base(t, ByKey(t, x)) * LocalOf(t, x)

MakePairs ==
  /\ stage = "gen" /\ todo = {}
  /\ stage' = "pairs"
  /\ pairs' = [key \in Keys(task) |->
                 SortedSeq(UNION {{Code(task, tr[1], tr[3]), Code(task, tr[2], tr[3])} :
                                    tr \in {e \in emitted : ByKey(task, e[1]) = key}})]
  /\ UNCHANGED <<task, todo, emitted, nrows, scores, csv>>

(* some distances between the items of a pair, asymmetric and with ties *)
Dist(d, i, j) == CASE d = 0 -> 0
                   [] d = 1 -> (i + 2 * j) % 2
                   [] d = 2 -> (i * i + 3 * j) % 5
                   [] OTHER -> i - j

(* lookup in the sorted pairs: first position not smaller *)
Search(s, code) == 1 + Cardinality({k \in 1..Len(s) : s[k] < code})
DistOf(t, d, key, pos) ==
  LET c == pairs[key][pos] IN
  Dist(d, GlobalOf(t, key, c % Base(t, key)), GlobalOf(t, key, c \div Base(t, key)))

Score ==
  /\ stage = "pairs" /\ stage' = "score"
  /\ \E d \in DistIds :
       scores' = [tr \in emitted |->
         LET key == ByKey(task, tr[1])
             D(i) == DistOf(task, d, key, Search(pairs[key], Code(task, i, tr[3])))
         IN [got |-> Sign(D(tr[1]), D(tr[2])),
             want |-> Sign(Dist(d, tr[1], tr[3]), Dist(d, tr[2], tr[3]))]]
  /\ UNCHANGED <<task, todo, emitted, nrows, pairs, csv>>

(* collapse: mixed radix key of the regressors, decoded back *)
Radix(t, rows) == [k \in 1..Len(t.regs) |-> 1 + SetMax({r[k] : r \in rows})]
RECURSIVE Encode(_, _, _)
Encode(r, n, k) == IF k = 1 THEN r[1] ELSE r[k] + n[k] * Encode(r, n, k - 1)
RECURSIVE Decode(_, _, _)
Decode(c, n, k) == IF k = 1 THEN <<c>> ELSE Append(Decode(c \div n[k], n, k - 1), c % n[k])

Collapse ==
  /\ stage = "score" /\ stage' = "done"
  /\ csv' = UNION { LET mine == {e \in emitted : ByKey(task, e[1]) = key}
                        rows == {RegRow(task, e) : e \in mine}
                        n    == Radix(task, rows)
                        K    == Len(task.regs)
                        code(e) == Encode(RegRow(task, e), n, K)
                    IN { [by |-> key, regs |-> Decode(c, n, K),
                          n |-> Cardinality({e \in mine : code(e) = c}),
                          sum |-> FoldSet(LAMBDA e, acc : acc + scores[e].got, 0,
                                          {e \in mine : code(e) = c})]
                         : c \in {code(e) : e \in mine} }
                    : key \in Keys(task) }
  /\ UNCHANGED <<task, todo, emitted, nrows, pairs, scores>>

Next == GenBlock \/ MakePairs \/ Score \/ Collapse
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)
Gen == stage = "gen"
Full == todo = {}

Sound == \A tr \in emitted : /\ IsABX(task, tr[1], tr[2], tr[3])
                             /\ Keeps(task, tr[1], tr[2], tr[3])
Complete == (Full /\ task.thr = 0) => emitted = Triplets(task)
NoDuplicate == nrows = Cardinality(emitted)
Thresholded == (Full /\ task.thr > 0) =>
   LET all == Triplets(task) IN
   \A c \in {CellOf(task, tr) : tr \in all} :
      Cardinality({tr \in emitted : CellOf(task, tr) = c})
        = Min2(task.thr, Cardinality({tr \in all : CellOf(task, tr) = c}))

PairsExact == stage # "gen" =>
   \A key \in DOMAIN pairs :
      /\ \A k \in 1..(Len(pairs[key]) - 1) : pairs[key][k] < pairs[key][k + 1]
      /\ \A tr \in emitted : ByKey(task, tr[1]) = key =>
            \A i \in {tr[1], tr[2]} :
               LET c == Code(task, i, tr[3])
                   p == Search(pairs[key], c)
               IN /\ p <= Len(pairs[key]) /\ pairs[key][p] = c
                  /\ GlobalOf(task, key, c % Base(task, key)) = i
                  /\ GlobalOf(task, key, c \div Base(task, key)) = tr[3]
      /\ \A k \in 1..Len(pairs[key]) :
            \E tr \in emitted : \E i \in {tr[1], tr[2]} :
               ByKey(task, i) = key /\ Code(task, i, tr[3]) = pairs[key][k]

ScoreExact == stage \in {"score", "done"} => \A tr \in emitted : scores[tr].got = scores[tr].want

CsvExact == stage = "done" =>
   /\ \A r \in csv :
        LET mine == {e \in emitted : ByKey(task, e[1]) = r.by /\ RegRow(task, e) = r.regs}
        IN mine # {} /\ r.n = Cardinality(mine)
           /\ r.sum = FoldSet(LAMBDA e, acc : acc + scores[e].want, 0, mine)
   /\ \A e \in emitted : \E r \in csv : r.by = ByKey(task, e[1]) /\ r.regs = RegRow(task, e)
   /\ FoldSet(LAMBDA r, acc : acc + r.n, 0, csv) = nrows

(* progress: every behaviour reaches the end *)
Terminated == stage = "done"
NotStuck == ENABLED Next \/ Terminated
=============================================================================
