------------------------------- MODULE Coding -------------------------------
(***************************************************************************)
(* Indexed tables: rows of labels are written in pieces; indexed columns   *)
(* are stored as positions in the list of labels, fused columns as one     *)
(* key in mixed radix (the first column having weight 1), in the smallest  *)
(* unsigned type that holds the greatest key (types of 2, 4 or 8 values    *)
(* here).  The same coding gives the conditions of the analysis.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxCols, MaxLevels, MaxRows

VARIABLES levels, width, table, keys, refused
vars == <<levels, width, table, keys, refused>>

RECURSIVE Prod(_, _)
Prod(f, k) == IF k = 0 THEN 1 ELSE f[k] * Prod(f, k - 1)
Weight(k) == Prod(levels, k - 1)
RECURSIVE KeyTo(_, _)
KeyTo(r, k) == IF k = 0 THEN 0 ELSE r[k] * Weight(k) + KeyTo(r, k - 1)
Key(r) == KeyTo(r, Len(levels))
Decode(c) == [k \in 1..Len(levels) |-> (c \div Weight(k)) % levels[k]]
AllRows == {r \in [1..Len(levels) -> 0..(MaxLevels - 1)] : \A k \in 1..Len(levels) : r[k] < levels[k]}
Types == {2, 4, 8, 16}
Fit(n) == IF \E t \in Types : n < t THEN CHOOSE t \in Types : n < t /\ \A u \in Types : n < u => t <= u ELSE 0

Init == /\ levels \in UNION {[1..n -> 1..MaxLevels] : n \in 1..MaxCols}
        /\ width = Fit(Prod(levels, Len(levels)) - 1)
        /\ refused = (width = 0)
        /\ table = <<>> /\ keys = <<>>
Write == /\ ~refused /\ Len(table) < MaxRows
         /\ \E r \in AllRows : table' = Append(table, r) /\ keys' = Append(keys, Key(r) % width)
         /\ UNCHANGED <<levels, width, refused>>
Spec == Init /\ [][Write]_vars

Restored == \A k \in 1..Len(table) : Decode(keys[k]) = table[k]
Injective == \A j, k \in 1..Len(table) : keys[j] = keys[k] => table[j] = table[k]
InType == \A k \in 1..Len(keys) : keys[k] < width
RefusedOnlyIfTooBig == refused <=> Prod(levels, Len(levels)) > 16
=============================================================================
