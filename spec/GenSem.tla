------------------------------- MODULE GenSem -------------------------------
(* What the generators of test data promise, and when two result files are
   the same. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

(* number of occurrences of x in the sequence s *)
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)

(* an item file of n columns of b labels: every combination of labels occurs
   r + 1 times.  rows: sequence of sequences of label numbers 0..b-1 *)
Complete(rows, b, n, r) ==
  /\ Len(rows) = (r + 1) * Power(b, n)
  /\ \A f \in [1..n -> 0..(b - 1)] : Times(rows, f) = r + 1

(* two tables (cols: sequence of column names, rows: sequence of sequences of
   values) are the same up to the order of the columns and of the lines *)
Lines(t) == [i \in 1..Len(t.rows) |->
               [c \in {t.cols[j] : j \in 1..Len(t.cols)} |->
                  t.rows[i][CHOOSE j \in 1..Len(t.cols) : t.cols[j] = c]]]
SameTable(a, b) ==
  LET la == Lines(a)  lb == Lines(b)
  IN /\ {a.cols[j] : j \in 1..Len(a.cols)} = {b.cols[j] : j \in 1..Len(b.cols)}
     /\ Len(la) = Len(lb)
     /\ \A i \in 1..Len(la) : Times(la, la[i]) = Times(lb, la[i])
=============================================================================
