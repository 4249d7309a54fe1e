---------------------------- MODULE LoaderCases ----------------------------
(* Item files and auxiliary files, in a small scope. *)
EXTENDS LoaderSem, FiniteSetsExt

CONSTANTS Keys, MaxRows, Shapes

(* shapes of the auxiliary files: which column each one hangs on *)
Shape(s) ==
  CASE s = 1 -> << [key |-> "p", cols |-> <<"q">>] >>
    [] s = 2 -> << [key |-> "p", cols |-> <<"q">>], [key |-> "q", cols |-> <<"r">>] >>
    [] s = 3 -> << [key |-> "q", cols |-> <<"r">>], [key |-> "p", cols |-> <<"q">>], [key |-> "t", cols |-> <<"u">>] >>
    [] s = 4 -> << [key |-> "z", cols |-> <<"q">>], [key |-> "t", cols |-> <<"u", "v">>] >>
Rows(n) == {<<>>} \cup UNION {[1..k -> Keys] : k \in 1..n}
AuxRows(n) == {<<>>, << <<"a">> >>} \cup
   {<< [j \in 1..(n + 1) |-> IF j = 1 THEN "a" ELSE x] >> : x \in Keys} \cup
   {<< [j \in 1..(n + 1) |-> IF j = 1 THEN "b" ELSE x], [j \in 1..(n + 1) |-> IF j = 1 THEN "a" ELSE y] >> : x \in Keys, y \in Keys}
AuxSets(s) == LET sh == Shape(s) IN
  IF Len(sh) = 1 THEN {<< [key |-> sh[1].key, cols |-> sh[1].cols, rows |-> r] >> : r \in AuxRows(1)}
  ELSE IF Len(sh) = 2
  THEN {<< [key |-> sh[1].key, cols |-> sh[1].cols, rows |-> r], [key |-> sh[2].key, cols |-> sh[2].cols, rows |-> q] >> :
         r \in AuxRows(Len(sh[1].cols)), q \in AuxRows(Len(sh[2].cols))}
  ELSE {<< [key |-> sh[1].key, cols |-> sh[1].cols, rows |-> r], [key |-> sh[2].key, cols |-> sh[2].cols, rows |-> q],
           [key |-> sh[3].key, cols |-> sh[3].cols, rows |-> r] >> : r \in AuxRows(1), q \in AuxRows(1)}
Cases == {[cols |-> <<"p", "t">>, rows |-> rs, aux |-> ax,
           loc |-> [i \in 1..Len(rs) |-> IF Len(rs[i]) > 0 THEN i ELSE 0]] :
           rs \in [1..MaxRows -> Rows(2)], ax \in UNION {AuxSets(s) : s \in Shapes}}

=============================================================================
