------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Loading by successive merges, in any order: each step merges one more   *)
(* auxiliary file whose key is already a column; the lines with missing    *)
(* labels are dropped at the end.                                          *)
(***************************************************************************)
EXTENDS LoaderCases

VARIABLES c, tab, merged, phase
vars == <<c, tab, merged, phase>>

Init == /\ c \in Cases
        /\ tab = [i \in 1..Len(c.rows) |-> [col \in ToSet(c.cols) |-> Cell(c.rows[i], IndexOf(c.cols, col))]]
        /\ merged = {} /\ phase = "merge"
Hit(a, k) == {j \in 1..Len(a.rows) : Len(a.rows[j]) > 0 /\ a.rows[j][1] = k /\ k # NONE}
Merge(n) ==
  /\ phase = "merge" /\ n \notin merged
  /\ c.aux[n].key \in DOMAIN tab[1]
  /\ merged' = merged \cup {n}
  /\ tab' = [i \in DOMAIN tab |->
       LET a == c.aux[n] IN
       LET h == Hit(a, tab[i][a.key]) IN
       [col \in DOMAIN tab[i] \cup ToSet(a.cols) |->
          IF col \in DOMAIN tab[i] THEN tab[i][col]
          ELSE IF h = {} THEN NONE ELSE Cell(a.rows[CHOOSE j \in h : TRUE], 1 + IndexOf(a.cols, col))]]
  /\ UNCHANGED <<c, phase>>
CanMerge == \E n \in 1..Len(c.aux) : n \notin merged /\ c.aux[n].key \in DOMAIN tab[1]
Drop == /\ phase = "merge" /\ ~CanMerge
        /\ phase' = "done"
        /\ UNCHANGED <<c, tab, merged>>
Next == (\E n \in 1..Len(c.aux) : Merge(n)) \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Res == SelectSeq(Lines(c), LAMBDA i : \A col \in DOMAIN tab[i] : tab[i][col] # NONE)
OwnLabels == phase = "done" => \A i \in DOMAIN tab : \A col \in DOMAIN tab[i] : tab[i][col] = Label(c, c.rows[i], col)
AllColumns == phase = "done" => \A i \in DOMAIN tab : DOMAIN tab[i] = AllCols(c)
KeptLines == phase = "done" => Res = Kept(c)
NoCreation == \A i \in DOMAIN tab : \A col \in ToSet(c.cols) : tab[i][col] = Cell(c.rows[i], IndexOf(c.cols, col))
Ends == <>(phase = "done")
=============================================================================
