----------------------------- MODULE LoaderSem -----------------------------
(***************************************************************************)
(* Meaning of an item file and of its auxiliary files.  A case c has       *)
(*   cols : names of the label columns of the item file                    *)
(*   rows : one sequence of labels for each line, shorter than cols when   *)
(*          the end of the line is missing; <<>>: blank line               *)
(*   aux  : sequence of [key, cols, rows], rows of <<key label>> \o labels *)
(* Labels are strings; NONE stands for a missing one.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NONE == "?"
Cell(r, k) == IF k <= Len(r) THEN r[k] ELSE NONE
IndexOf(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x

(* the auxiliary file which defines column col (0: none) *)
DefinedBy(c, col) == IF \E a \in 1..Len(c.aux) : Contains(c.aux[a].cols, col)
                     THEN CHOOSE a \in 1..Len(c.aux) : Contains(c.aux[a].cols, col) ELSE 0

(* an auxiliary file is used when its key is a column of the item file or  *)
(* is defined by an auxiliary file in use                                  *)
RECURSIVE InUse(_, _)
InUse(c, a) == \/ Contains(c.cols, c.aux[a].key)
               \/ \E b \in 1..Len(c.aux) : b # a /\ Contains(c.aux[b].cols, c.aux[a].key) /\ InUse(c, b)
AllCols(c) == ToSet(c.cols) \cup UNION {ToSet(c.aux[a].cols) : a \in {b \in 1..Len(c.aux) : InUse(c, b)}}

(* label of a line for a column, at any depth *)
RECURSIVE Label(_, _, _)
Label(c, r, col) ==
  IF Contains(c.cols, col) THEN Cell(r, IndexOf(c.cols, col))
  ELSE LET a == c.aux[DefinedBy(c, col)]
           k == Label(c, r, a.key)
           hits == {j \in 1..Len(a.rows) : Len(a.rows[j]) > 0 /\ a.rows[j][1] = k}
       IN IF k = NONE \/ hits = {} THEN NONE
          ELSE Cell(a.rows[CHOOSE j \in hits : TRUE], 1 + IndexOf(a.cols, col))

Complete(c, r) == \A col \in AllCols(c) : Label(c, r, col) # NONE
(* the positions of the lines kept, in order, and of those listed as removed *)
Lines(c) == SelectSeq([i \in 1..Len(c.rows) |-> i], LAMBDA i : c.loc[i] > 0)
Kept(c) == SelectSeq(Lines(c), LAMBDA i : Complete(c, c.rows[i]))
Removed(c) == SelectSeq(Lines(c), LAMBDA i : ~Complete(c, c.rows[i]))
(* a label defined twice by a file in use is ambiguous *)
Ambiguous(c) == \E a \in 1..Len(c.aux) : InUse(c, a)
  /\ \E i, j \in 1..Len(c.aux[a].rows) : i < j /\ Len(c.aux[a].rows[i]) > 0 /\ Len(c.aux[a].rows[j]) > 0
       /\ c.aux[a].rows[i][1] = c.aux[a].rows[j][1]
(* and an item has this label: such files cannot be loaded *)
UsedAmbiguous(c) == \E a \in 1..Len(c.aux) : InUse(c, a)
  /\ \E i, j \in 1..Len(c.aux[a].rows) : i < j /\ Len(c.aux[a].rows[i]) > 0 /\ Len(c.aux[a].rows[j]) > 0
       /\ c.aux[a].rows[i][1] = c.aux[a].rows[j][1]
       /\ \E h \in 1..Len(c.rows) : Label(c, c.rows[h], c.aux[a].key) = c.aux[a].rows[i][1]
=============================================================================
