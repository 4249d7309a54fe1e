-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Generation of an item file, line by line: the labels of line i are the  *)
(* digits of i in the base.  Also the comparison of two tables by sorting  *)
(* their lines, which must agree with SameTable.                           *)
(***************************************************************************)
EXTENDS GenSem, SequencesExt
CONSTANTS MaxBase, MaxCols, MaxRepeats, MaxLines

VARIABLES base, n, rep, rows, ta, tb, sorted
vars == <<base, n, rep, rows, ta, tb, sorted>>

Digits(i) == [j \in 1..n |-> (i \div Power(base, j - 1)) % base]
Total == (rep + 1) * Power(base, n)

Tables(cols) == UNION {[1..k -> {<<x, y>> : x, y \in 0..1}] : k \in 0..MaxLines}

Init == /\ rows = <<>> /\ sorted = FALSE
        /\ \/ /\ base \in 1..MaxBase /\ n \in 0..MaxCols /\ rep \in 0..MaxRepeats
              /\ ta = <<>> /\ tb = <<>>
           \/ /\ base = 1 /\ n = 0 /\ rep = 0
              /\ \E p, q \in {<<1, 2>>, <<2, 1>>} :
                 \E x, y \in Tables(p) :
                    ta = <<[cols |-> p, rows |-> x]>> /\ tb = <<[cols |-> q, rows |-> y]>>

Line == /\ ta = <<>> /\ Len(rows) < Total
        /\ rows' = Append(rows, Digits(Len(rows)))
        /\ UNCHANGED <<base, n, rep, ta, tb, sorted>>

(* the columns put in order, then the lines *)
Ordered(t) == LET l == [i \in 1..Len(t.rows) |->
                          IF t.cols = <<1, 2>> THEN t.rows[i] ELSE <<t.rows[i][2], t.rows[i][1]>>]
              IN SortSeq(l, LAMBDA u, v : u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2]))
Sort == /\ ta # <<>> /\ ~sorted /\ sorted' = TRUE
        /\ ta' = Append(ta, [cols |-> <<1, 2>>, rows |-> Ordered(ta[1])])
        /\ tb' = Append(tb, [cols |-> <<1, 2>>, rows |-> Ordered(tb[1])])
        /\ UNCHANGED <<base, n, rep, rows>>

Next == Line \/ Sort
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

EachCombination == (ta = <<>> /\ Len(rows) = Total) => Complete(rows, base, n, rep)
NoLess == (ta = <<>> /\ Len(rows) < Total) => ~Complete(rows, base, n, rep)
SortDecides == sorted => (SameTable(ta[1], tb[1]) <=> ta[2] = tb[2])
Ends == <>(IF ta = <<>> THEN Len(rows) = Total ELSE sorted)
=============================================================================
