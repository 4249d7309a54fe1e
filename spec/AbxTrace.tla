------------------------------ MODULE AbxTrace ------------------------------
(***************************************************************************)
(* Validation of recorded runs of the real pipeline against AbxSem.        *)
(*                                                                         *)
(* IOEnv.CASES names a JSON array of cases: a task (see AbxSem), the list  *)
(* of the property groups to judge, and the events recorded, in order:     *)
(*   Stats   the statistics of the task object                             *)
(*   Empty   no task file, because there is no triplet                     *)
(*   Task    content of the task file, decoded                             *)
(*   Draws   how often each triplet is drawn, over many seeds              *)
(*   Dist    ranks of the distances, in the order of the pairs             *)
(*   Score   content of the score file                                     *)
(*   Csv     content of the result file                                    *)
(*   Error   an exception, a crash or a timeout                            *)
(* One behaviour per case; every behaviour ends, with the set of clauses   *)
(* which failed: the verdict is total.                                     *)
(***************************************************************************)
EXTENDS AbxSem, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, l, all, bad
vars == <<ci, l, all, bad>>

T == Cases[ci]
Wants(p) == \E k \in 1..Len(T.props) : T.props[k] = p
Fail(cond, name) == IF cond THEN {} ELSE {name}

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)

---------------------------------------------------------------------------
(* decoding of the blocks of a task file *)
Local(b) == 0..(Len(b.items) - 1)
RowOk(b, r) == Len(r) = 3 /\ r[1] \in Local(b) /\ r[2] \in Local(b) /\ r[3] \in Local(b)
BlockOk(t, b) ==
  /\ \A k \in 1..Len(b.items) : b.items[k] \in Items(t)
  /\ Cardinality({b.items[k] : k \in 1..Len(b.items)}) = Len(b.items)
  /\ \A k \in 1..Len(b.rows) : RowOk(b, b.rows[k])
G(b, r) == << b.items[r[1] + 1], b.items[r[2] + 1], b.items[r[3] + 1] >>
Rows(b) == {G(b, b.rows[k]) : k \in 1..Len(b.rows)}
AllRows(e) == ToSet(FlattenSeq([k \in 1..Len(e.blocks) |->
                LET b == e.blocks[k] IN [j \in 1..Len(b.rows) |-> G(b, b.rows[j])]]))
NRows(e) == SumTo([k \in 1..Len(e.blocks) |-> Len(e.blocks[k].rows)], Len(e.blocks))
Form(t, e) == \A k \in 1..Len(e.blocks) : BlockOk(t, e.blocks[k])

(* each block holds all the items of one by value, once, in the order of the file *)
ByBlocks(t, e) ==
  /\ \A k \in 1..Len(e.blocks) :
       LET b == e.blocks[k] IN
       /\ {b.items[j] : j \in 1..Len(b.items)} = {i \in Items(t) : ByKey(t, i) = b.key}
       /\ Len(b.rows) > 0
  /\ \A j, k \in 1..Len(e.blocks) : j # k => e.blocks[j].key # e.blocks[k].key

Ranges(e) ==
  /\ \A k \in 1..Len(e.blocks) :
       LET b == e.blocks[k] IN
       /\ b.lo = (IF k = 1 THEN 0 ELSE e.blocks[k - 1].hi)
       /\ b.hi = b.lo + Len(b.rows)
  /\ e.total = (IF e.blocks = <<>> THEN 0 ELSE e.blocks[Len(e.blocks)].hi)

Exact(t, e) ==
  LET got == AllRows(e) IN
  IF t.thr = 0
  THEN Fail(got \subseteq all, "sound") \cup Fail(all \subseteq got, "complete")
       \cup Fail(NRows(e) = Cardinality(got), "duplicate")
  ELSE Fail(got \subseteq all, "sound") \cup Fail(NRows(e) = Cardinality(got), "duplicate")

---------------------------------------------------------------------------
(* pairs: exactly those needed, coded in base n, sorted, ranges tiling *)
PairRanges(e) ==
  /\ \A k \in 1..Len(e.blocks) :
       LET b == e.blocks[k] IN
       /\ b.plo = (IF k = 1 THEN 0 ELSE e.blocks[k - 1].phi)
       /\ b.phi = b.plo + Len(b.codes)
  /\ e.ptotal = (IF e.blocks = <<>> THEN 0 ELSE e.blocks[Len(e.blocks)].phi)
(* with a large base, which TLC cannot multiply, a code is given by its digits *)
Large(b) == b.base > 40000
Code(b, i, j) == IF Large(b) THEN <<i, j>> ELSE i + b.base * j
Less(b, c, d) == IF Large(b) THEN c[2] < d[2] \/ (c[2] = d[2] /\ c[1] < d[1]) ELSE c < d
PairSorted(b) == \A k \in 1..(Len(b.codes) - 1) : Less(b, b.codes[k], b.codes[k + 1])
PairBase(b) == \A k \in 1..Len(b.rows) : \A j \in 1..3 : b.rows[k][j] < b.base
NeededCodes(b) ==
  {Code(b, b.rows[k][1], b.rows[k][3]) : k \in 1..Len(b.rows)}
  \cup {Code(b, b.rows[k][2], b.rows[k][3]) : k \in 1..Len(b.rows)}
Codes(b) == {b.codes[k] : k \in 1..Len(b.codes)}

---------------------------------------------------------------------------
(* regressors: the columns asked for, each value that of the triplet *)
RegVars(e) == {e.regvars[k] : k \in 1..Len(e.regvars)}
RegColumns(t, e) ==
  /\ RegVars(e) = {t.regs[k] : k \in 1..Len(t.regs)}
  /\ Cardinality(RegVars(e)) = Len(e.regvars)
RegsAligned(t, e, b) ==
  /\ Len(b.regs) = Len(b.rows)
  /\ \A k \in 1..Len(b.rows) :
       LET g == G(b, b.rows[k]) IN
       /\ Len(b.regs[k]) = Len(e.regvars)
       /\ \A j \in 1..Len(e.regvars) : b.regs[k][j] = Val(t, e.regvars[j], g[1], g[2], g[3])

---------------------------------------------------------------------------
(* threshold: every cell keeps min(threshold, size) triplets.  The cells    *)
(* are those of the regressors of B and X within an on/across/by block      *)
BXRegs(t) == SelectSeq(t.regs, LAMBDA v : v.ext \in {"B", "X", "2"})
TCell(t, tr) == << CellOf(t, tr), [k \in 1..Len(BXRegs(t)) |->
                                     Val(t, BXRegs(t)[k], tr[1], tr[2], tr[3])] >>
HasARegs(t) == \E k \in 1..Len(t.regs) : t.regs[k].ext = "A"
Thresholded(t, e) ==
  LET got == AllRows(e)
      Block(tr) == << ByKey(t, tr[1]), L(t, tr[1], t.on), AcrossKey(t, tr[1]) >>
      (* sizes of the cells of the triplets of a set *)
      sizes(S) == LET cell == [tr \in S |-> TCell(t, tr)] IN
                  [c \in {cell[tr] : tr \in S} |-> Cardinality({tr \in S : cell[tr] = c})]
  IN  \A k \in {Block(tr) : tr \in all \cup got} :
        LET want == sizes({tr \in all : Block(tr) = k})
            have == sizes({tr \in got : Block(tr) = k})
        IN  /\ DOMAIN have = DOMAIN want
            /\ \A c \in DOMAIN want : have[c] = Min2(t.thr, want[c])

---------------------------------------------------------------------------
(* over many seeds: every triplet is drawn, each of a cell as often as the   *)
(* others (within 7 standard deviations of the binomial distribution)        *)
DrawClauses(t, e) ==
  LET cell == [tr \in all |-> TCell(t, tr)]
      size == [c \in {cell[tr] : tr \in all} |-> Cardinality({tr \in all : cell[tr] = c})]
      got == {e.drawn[k].t : k \in 1..Len(e.drawn)}
      Fair(tr, n) == LET N == size[cell[tr]]  r == e.runs IN
        IF N <= t.thr THEN n = r
        ELSE (n * N - r * t.thr) * (n * N - r * t.thr) <= 49 * r * t.thr * (N - t.thr)
  IN Fail(got \subseteq all, "outside")
     \cup Fail(all \subseteq got, "never_drawn")
     \cup Fail(\A k \in 1..Len(e.drawn) : e.drawn[k].t \notin all \/ Fair(e.drawn[k].t, e.drawn[k].n), "unfair")

(* a task with one cell, the product of its A, B and X items: each item is   *)
(* drawn, in each of its roles, as often as the others                       *)
RoleClauses(e) ==
  LET role(k) == {tr[k] : tr \in all}
      got(k) == {e.drawn[k][j].i : j \in 1..Len(e.drawn[k])}
      Fair(k, n) == LET N == Cardinality(role(k))  r == e.runs IN
        (n * N - r) * (n * N - r) <= 49 * r * (N - 1)
  IN Fail(\A k \in 1..3 : got(k) \subseteq role(k), "outside")
     \cup Fail(\A k \in 1..3 : role(k) \subseteq got(k), "never_drawn")
     \cup Fail(\A k \in 1..3 : \A j \in 1..Len(e.drawn[k]) : Fair(k, e.drawn[k][j].n), "unfair")

---------------------------------------------------------------------------
(* statistics *)
StatBlock(t, i) == << ByKey(t, i), L(t, i, t.on), IF t.across = <<>> THEN <<i>> ELSE AcrossKey(t, i) >>
OnlyItemFilters(t) == Len(ItemStage(t)) = Len(t.filters)
StatClauses(t, e) ==
  LET kept == KeptItems(t)
      keys == {ByKey(t, i) : i \in kept}
      Of(k) == {i \in kept : ByKey(t, i) = k}
      NbT(k) == Cardinality({tr \in all : ByKey(t, tr[1]) = k})
      AB(k) == {<<i, j>> \in Of(k) \X Of(k) : ~SameOn(t, i, j) /\ ShareAcross(t, i, j)}
      AX(k) == {<<i, j>> \in Of(k) \X Of(k) : i # j /\ SameOn(t, i, j) /\ CrossAcross(t, i, j)}
      Level(tr) == <<StatBlock(t, tr[1]), L(t, tr[2], t.on), AcrossKey(t, tr[3])>>
  IN Fail(e.nb = Cardinality(all), "nb_triplets")
     \cup Fail(e.nby = Cardinality(keys), "nb_by_levels")
     \cup Fail(e.nblocks = Cardinality({StatBlock(t, i) : i \in kept}), "nb_blocks")
     \cup Fail({e.by[k].key : k \in 1..Len(e.by)} = keys /\ Len(e.by) = Cardinality(keys), "by_stats")
     \cup UNION { LET s == e.by[k] key == s.key IN
            IF key \notin keys THEN {"by_key"} ELSE
            Fail(s.nb = NbT(key), "by.nb_triplets")
            \cup Fail(s.items = -1 \/ s.items = Cardinality(Of(key)), "by.nb_items")
            \cup Fail(s.on = Cardinality({L(t, i, t.on) : i \in Of(key)}), "by.nb_on_levels")
            \cup Fail(t.across = <<>> \/ s.across = Cardinality({AcrossKey(t, i) : i \in Of(key)}), "by.nb_across_levels")
            \cup Fail(s.onacross = Cardinality({StatBlock(t, i) : i \in Of(key)}), "by.nb_on_across_levels")
            \cup (IF ~OnlyItemFilters(t) THEN {} ELSE
                  Fail(s.abpairs = Cardinality(AB(key)), "by.nb_across_pairs")
                  \cup Fail(Len(t.across) > 1 \/ s.axpairs = Cardinality(AX(key)), "by.nb_on_pairs"))
            \cup Fail(s.blocks = <<>> \/ SumTo(s.blocks, Len(s.blocks)) = NbT(key), "by.block_sizes")
            \cup Fail(t.across = <<>> \/ ~OnlyItemFilters(t) \/ s.levels = -1 \/
                        s.levels = Cardinality({Level(tr) : tr \in {u \in all : ByKey(t, u[1]) = key}}),
                      "by.nb_levels")
            : k \in 1..Len(e.by) }

---------------------------------------------------------------------------
(* scores: position of a code in the sorted codes, by bisection; 0 if absent *)
RECURSIVE Bisect(_, _, _, _, _)
Bisect(b, s, c, lo, hi) ==
  IF lo > hi THEN 0
  ELSE LET m == (lo + hi) \div 2 IN
       IF s[m] = c THEN m ELSE IF Less(b, s[m], c) THEN Bisect(b, s, c, m + 1, hi) ELSE Bisect(b, s, c, lo, m - 1)
Pos(b, c) == Bisect(b, b.codes, c, 1, Len(b.codes))
(* -1 stands for NaN, which is neither smaller nor greater *)
ScoreOf(d1, d2) == IF d1 = -1 \/ d2 = -1 THEN 0 ELSE Sign(d1, d2)

ScoreBlock(b, d, s) ==
  \A k \in 1..Len(b.rows) :
    LET r == b.rows[k]
        pa == Pos(b, Code(b, r[1], r[3]))
        pb == Pos(b, Code(b, r[2], r[3]))
    IN pa # 0 /\ pb # 0 /\ s[b.lo + k] = ScoreOf(d[b.plo + pa], d[b.plo + pb])

Event(name) == LET I == {k \in 1..Len(T.events) : T.events[k].ev = name} IN T.events[SetMin(I)]
HasEvent(name) == \E k \in 1..Len(T.events) : T.events[k].ev = name

ScoreClauses(t, e) ==
  LET tk == Event("Task")  ds == Event("Dist") IN
  Fail(Len(e.s) = tk.total, "length")
  \cup (IF Len(e.s) # tk.total \/ Len(ds.d) # tk.ptotal THEN {} ELSE
        Fail(\A k \in 1..Len(tk.blocks) : ScoreBlock(tk.blocks[k], ds.d, e.s), "value"))

---------------------------------------------------------------------------
(* collapsed results: the values of the regressors in the task file, with  *)
(* the scores in the score file                                            *)
CsvClauses(t, e) ==
  LET tk == Event("Task")
      sc == Event("Score").s
      Combos(b) == {b.regs[k] : k \in 1..Len(b.rows)}
      want == UNION { LET b == tk.blocks[n] IN
                { LET I == {k \in 1..Len(b.rows) : b.regs[k] = c} IN
                  [key |-> b.key, regs |-> c, n |-> Cardinality(I),
                   s2 |-> FoldSet(LAMBDA k, acc : acc + sc[b.lo + k] + 1, 0, I)]
                  : c \in Combos(b) }
                : n \in 1..Len(tk.blocks) }
      got == {e.rows[k] : k \in 1..Len(e.rows)}
  IN IF e.regvars = tk.regvars /\ Cardinality(got) = Len(e.rows) /\ got = want THEN {} ELSE
     Fail(e.regvars = tk.regvars, "columns")
     \cup Fail(Cardinality(got) = Len(e.rows), "duplicate_row")
     \cup Fail({<<r.key, r.regs>> : r \in got} = {<<r.key, r.regs>> : r \in want}, "combinations")
     \cup Fail(\A r \in got : \A w \in want :
                 (r.key = w.key /\ r.regs = w.regs) => r.n = w.n, "count")
     \cup Fail(\A r \in got : \A w \in want :
                 (r.key = w.key /\ r.regs = w.regs) => r.s2 = w.s2, "mean")

---------------------------------------------------------------------------
Pre(p, S) == {p \o "." \o s : s \in S}

TaskClauses(t, e) ==
  IF ~Form(t, e) THEN {"form"} ELSE
  (IF Wants("exact") THEN Exact(t, e) \cup Fail(ByBlocks(t, e), "by_blocks")
                          \cup Fail(Ranges(e), "ranges") ELSE {})
  \cup (IF Wants("pairs") THEN
          Fail(PairRanges(e), "pair_ranges")
          \cup Fail(\A k \in 1..Len(e.blocks) : PairSorted(e.blocks[k]), "pair_sorted")
          \cup Fail(\A k \in 1..Len(e.blocks) : PairBase(e.blocks[k]), "pair_base")
          \cup Fail(\A k \in 1..Len(e.blocks) : NeededCodes(e.blocks[k]) \subseteq Codes(e.blocks[k]), "pair_missing")
          \cup Fail(\A k \in 1..Len(e.blocks) : Codes(e.blocks[k]) \subseteq NeededCodes(e.blocks[k]), "pair_useless")
        ELSE {})
  \cup (IF Wants("regs") THEN
          Fail(RegColumns(t, e), "reg_columns")
          \cup Fail(\A k \in 1..Len(e.blocks) : RegsAligned(t, e, e.blocks[k]), "reg_values")
        ELSE {})
  \cup (IF Wants("thr") THEN Fail(AllRows(e) \subseteq all, "thr_subset")
                             \cup Fail(NRows(e) = Cardinality(AllRows(e)), "thr_duplicate")
                             \cup Fail(Thresholded(t, e), "thr_count") ELSE {})

Clauses(t, e) ==
  CASE e.ev = "Error" -> {"raised." \o e.what}
    [] e.ev = "Stats" -> IF Wants("stats") THEN Pre("stats", StatClauses(t, e)) ELSE {}
    [] e.ev = "Empty" -> Fail(all = {}, "no_output")
    [] e.ev = "Task"  -> Fail(all # {} \/ ~Wants("exact"), "output_without_triplet") \cup Pre("task", TaskClauses(t, e))
    [] e.ev = "Dist"  -> {}
    [] e.ev = "Draws" -> Pre("draws", DrawClauses(t, e))
    [] e.ev = "Roles" -> Pre("roles", RoleClauses(e))
    [] e.ev = "Score" -> IF Wants("score") THEN Pre("score", ScoreClauses(t, e)) ELSE {}
    [] e.ev = "Csv"   -> IF Wants("csv") THEN Pre("csv", CsvClauses(t, e)) ELSE {}
    [] OTHER          -> {"unknown_event"}

NeedAll == Wants("exact") \/ Wants("stats") \/ Wants("thr")

Init == ci \in 1..Len(Cases) /\ l = 0 /\ all = {} /\ bad = {}
Load == /\ l = 0 /\ l' = 1
        /\ all' = (IF NeedAll THEN Triplets(T) ELSE {})
        /\ UNCHANGED <<ci, bad>>
Step == /\ l > 0 /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup Clauses(T, T.events[l])
        /\ UNCHANGED <<ci, all>>
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ all' = {}
           /\ UNCHANGED <<ci, bad>>
Next == Load \/ Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
