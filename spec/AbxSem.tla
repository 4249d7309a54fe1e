------------------------------- MODULE AbxSem -------------------------------
(***************************************************************************)
(* The meaning of an ABX task, declaratively.                              *)
(*                                                                         *)
(* A task t is a record                                                    *)
(*   items   : sequence of items, an item is a sequence of labels (one     *)
(*             integer per column of the item file)                        *)
(*   role    : for each column "on", "across", "by" or "other" (columns    *)
(*             of auxiliary files have the role of the column they refine) *)
(*   on      : a column                                                    *)
(*   across  : sequence of columns, possibly empty                         *)
(*   by      : sequence of columns, possibly empty                         *)
(*   filters : sequence of [vars, op, args]                                *)
(*   regs    : sequence of variables                                       *)
(*   thr     : 0 (no threshold) or the threshold                           *)
(* A variable is [col, ext] with ext one of "", "A", "B", "X", "1", "2".   *)
(*                                                                         *)
(* Nothing here follows the way the code computes: this is what the user   *)
(* asked for.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

L(t, i, c) == t.items[i][c]
Items(t) == 1..Len(t.items)

ByKey(t, i) == [k \in 1..Len(t.by) |-> t.items[i][t.by[k]]]
AcrossKey(t, i) == [k \in 1..Len(t.across) |-> t.items[i][t.across[k]]]
SameBy(t, i, j) == \A k \in 1..Len(t.by) : t.items[i][t.by[k]] = t.items[j][t.by[k]]
SameOn(t, i, j) == t.items[i][t.on] = t.items[j][t.on]

(* A and B share every across attribute (when there is one)                *)
ShareAcross(t, i, j) ==
  \A k \in 1..Len(t.across) : t.items[i][t.across[k]] = t.items[j][t.across[k]]
(* X differs from A on every across attribute                              *)
CrossAcross(t, i, j) ==
  \A k \in 1..Len(t.across) : t.items[i][t.across[k]] # t.items[j][t.across[k]]

BsOf(t, a) == {b \in Items(t) : SameBy(t, a, b) /\ ~SameOn(t, a, b) /\ ShareAcross(t, a, b)}
XsOf(t, a) == {x \in Items(t) : x # a /\ SameBy(t, a, x) /\ SameOn(t, a, x)
                                     /\ CrossAcross(t, a, x)}

IsABX(t, a, b, x) ==
  /\ SameBy(t, a, b) /\ SameBy(t, a, x)
  /\ SameOn(t, a, x) /\ ~SameOn(t, a, b)
  /\ ShareAcross(t, a, b) /\ CrossAcross(t, a, x)
  /\ a # x

---------------------------------------------------------------------------
(* Values of a variable in a triplet, predicates *)

Val(t, v, a, b, x) ==
  CASE v.ext = "A" -> t.items[a][v.col]
    [] v.ext = "B" -> t.items[b][v.col]
    [] v.ext = "X" -> t.items[x][v.col]
    [] v.ext = "1" -> t.items[a][v.col]
    [] v.ext = "2" -> IF t.role[v.col] = "on" THEN t.items[b][v.col] ELSE t.items[x][v.col]
    [] OTHER      -> t.items[a][v.col]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

InArgs(v, args) == \E k \in 1..Len(args) : args[k] = v

Pred(f, vals) ==
  CASE f.op = "col"   -> vals[1] # 0
    [] f.op = "in"    -> InArgs(vals[1], f.args)
    [] f.op = "notin" -> ~InArgs(vals[1], f.args)
    [] f.op = "eq"    -> vals[1] = vals[2]
    [] f.op = "ne"    -> vals[1] # vals[2]
    [] f.op = "lt"    -> vals[1] < vals[2]
    [] f.op = "mod"   -> InArgs(SumSeq(vals) % f.args[1], SubSeq(f.args, 2, Len(f.args)))
    [] f.op = "true"  -> TRUE
    [] OTHER          -> FALSE

IsGeneric(t, f) == \E k \in 1..Len(f.vars) : f.vars[k].ext = "" /\ t.role[f.vars[k].col] # "by"

PredAt(t, f, a, b, x) == Pred(f, [k \in 1..Len(f.vars) |-> Val(t, f.vars[k], a, b, x)])

(* a filter without extension is about items: it must hold for each item  *)
(* of the triplet                                                         *)
Holds(t, f, a, b, x) ==
  IF IsGeneric(t, f)
  THEN PredAt(t, f, a, a, a) /\ PredAt(t, f, b, b, b) /\ PredAt(t, f, x, x, x)
  ELSE PredAt(t, f, a, b, x)

Keeps(t, a, b, x) == \A k \in 1..Len(t.filters) : Holds(t, t.filters[k], a, b, x)

(* filters on items only, and the items they keep *)
ItemStage(t) == SelectSeq(t.filters,
   LAMBDA f : \A j \in 1..Len(f.vars) : t.role[f.vars[j].col] = "by" \/ f.vars[j].ext = "")
KeptItems(t) ==
  LET fs == ItemStage(t) IN
  {i \in Items(t) : \A k \in 1..Len(fs) : PredAt(t, fs[k], i, i, i)}

(* THE set of triplets of the task (UNION {S(a) : a} would say the same,    *)
(* but TLC takes a long time to merge many large sets)                     *)
TripletsOf(t, a) ==
  LET Bs == BsOf(t, a)  Xs == XsOf(t, a)
  IN  {tr \in {<<a, b, x>> : b \in Bs, x \in Xs} :
          t.filters = <<>> \/ Keeps(t, tr[1], tr[2], tr[3])}
(* among many items, those which a filter on items excludes are not tried   *)
Many(t) == Len(t.items) > 10000
TripletsAmong(t, K) ==
  {tr \in {<<a, b, x>> : a \in K, b \in K, x \in K} :
     IsABX(t, tr[1], tr[2], tr[3]) /\ Keeps(t, tr[1], tr[2], tr[3])}
Triplets(t) ==
  IF Many(t) THEN TripletsAmong(t, KeptItems(t))
  ELSE ToSet(FlattenSeq([a \in 1..Len(t.items) |-> SetToSeq(TripletsOf(t, a))]))

NbTripletsNoFilter(t) ==
  LET RECURSIVE S(_)
      S(a) == IF a = 0 THEN 0
              ELSE Cardinality(BsOf(t, a)) * Cardinality(XsOf(t, a)) + S(a - 1)
  IN S(Len(t.items))

(* the by levels: those of the items which the filters keep as a block *)
ByKeys(t) == {ByKey(t, i) : i \in Items(t)}

(* regressor combination of a triplet *)
RegRow(t, tr) == [k \in 1..Len(t.regs) |-> Val(t, t.regs[k], tr[1], tr[2], tr[3])]

(* the cell in which thresholding counts: by, on, across, on_2, across_2   *)
Cell(t, tr) == << ByKey(t, tr[1]), L(t, tr[1], t.on), AcrossKey(t, tr[1]),
                  L(t, tr[2], t.on), AcrossKey(t, tr[3]) >>

(* without across the cell is that of A itself: there is no other A        *)
CellOf(t, tr) == IF t.across = <<>> THEN <<tr[1], Cell(t, tr)>> ELSE <<0, Cell(t, tr)>>

Min2(m, n) == IF m <= n THEN m ELSE n
Max2(m, n) == IF m >= n THEN m ELSE n
SetMax(S) == CHOOSE m \in S : \A n \in S : n <= m
SetMin(S) == CHOOSE m \in S : \A n \in S : n >= m

Sign(d1, d2) == IF d1 < d2 THEN 1 ELSE IF d1 > d2 THEN -1 ELSE 0
=============================================================================
