------------------------------ MODULE IoTrace ------------------------------
(***************************************************************************)
(* Validation of recorded uses of the storage tools: buffered writer and   *)
(* reader, external sort, incremental sampler, indexed tables, choice of   *)
(* integer types.  One kind of case each; rows are projected to their      *)
(* number (from 1), -1 for a row which was never given.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, pos, drawn, bad
vars == <<ci, l, pos, drawn, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}
Rows(a, b) == [k \in 1..(b - a) |-> a + k]
Min2(a, b) == IF a < b THEN a ELSE b
Increasing(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]

---------------------------------------------------------------------------
(* writer: T.streams[k] = [n, given]; the event Written has the outcome and
   the rows found in each dataset; n = 0 when no size was declared *)
WriteClauses(e) ==
  LET wrong == \E k \in 1..Len(T.streams) : T.streams[k].n > 0 /\ T.streams[k].given # T.streams[k].n
  IN IF wrong THEN Fail(e.outcome # "ok", "not_filled_not_reported")
     ELSE IF e.outcome # "ok" THEN {"raised." \o e.outcome}
     ELSE UNION {Fail(e.got[k] = Rows(0, T.streams[k].given), "written_rows") : k \in 1..Len(T.streams)}

(* a dataset that exists is overwritten only on request, when it has the
   shape and the type asked for; it is left as it was otherwise *)
ClashClauses(e) ==
  IF T.overwrite = 1 /\ T.fixed = 1 /\ T.same = 1
  THEN IF e.outcome # "ok" THEN {"raised." \o e.outcome} ELSE Fail(e.written = 1, "written_rows")
  ELSE Fail(e.outcome # "ok", "existing_not_refused") \cup Fail(e.kept = 1, "existing_changed")

(* reader: pos[k] is the number of rows already given by reader k *)
ReadClauses(e) ==
  LET r == T.readers[e.r]
      rest == r.hi - pos[e.r]
  IN CASE e.outcome = "stop" -> Fail(rest = 0, "stop_too_early")
       [] e.outcome # "ok" -> {"raised." \o e.outcome}
       [] OTHER ->
          Fail(rest > 0, "no_stop")
          \cup Fail(e.rows = Rows(pos[e.r], pos[e.r] + Len(e.rows)), "read_rows")
          \cup Fail(e.amount > 0 => Len(e.rows) = Min2(e.amount, rest), "read_amount")
          \cup Fail(Len(e.rows) > 0, "read_nothing")
          \cup Fail((e.empty = 1) = (pos[e.r] + Len(e.rows) >= r.hi), "isempty")

(* sort *)
SortClauses(e) ==
  IF e.outcome # "ok" THEN {"raised." \o e.outcome} ELSE
  LET n == Len(T.key)
  IN Fail(Len(e.key) = n, "size")
     \cup Fail(\A j \in 1..(Len(e.key) - 1) : e.key[j] <= e.key[j + 1], "order")
     \cup UNION {Fail(ToSet(e.perms[d]) = 1..n /\ Len(e.perms[d]) = n, "rows_lost") : d \in 1..Len(e.perms)}
     \cup Fail(\A k \in ToSet(T.key) \cup ToSet(e.key) :
                 Cardinality({j \in 1..n : T.key[j] = k}) = Cardinality({j \in 1..Len(e.key) : e.key[j] = k}), "keys_lost")
     \cup UNION {Fail(\A j \in 1..Min2(n, Len(e.perms[d])) :
                    e.perms[d][j] \in 1..n => e.key[j] = T.key[e.perms[d][j]], "companion") : d \in 1..Len(e.perms)}
     \cup Fail(\A d \in 1..Len(e.perms) : e.perms[d] = e.perms[1], "not_together")
     \cup Fail(e.left = 0, "temporary_files")

(* sampler: pos = elements consumed, drawn = number drawn *)
SampleClauses(e) ==
  IF e.outcome # "ok" THEN {"raised." \o e.outcome} ELSE
  LET n == Min2(e.n, T.N - pos)
      base == IF T.rel = 1 THEN 0 ELSE pos
  IN Fail(Increasing(e.s), "not_increasing")
     \cup Fail(\A k \in 1..Len(e.s) : base <= e.s[k] /\ e.s[k] < base + n, "out_of_chunk")
     \cup Fail(drawn + Len(e.s) <= T.K /\ T.K - drawn - Len(e.s) <= T.N - pos - n, "count_infeasible")
SampleEnd == Fail(pos = T.N, "stopped_early") \cup Fail(drawn = T.K, "count")

(* many draws of the same sample: each K-subset occurs, equally often up to
   T.dev; or, for larger populations, each element *)
DrawClauses(e) ==
  IF e.outcome # "ok" THEN {"raised." \o e.outcome} ELSE
  IF T.each = "subset" THEN
    LET all == kSubset(T.K, 0..(T.N - 1))
        D == [k \in 1..Len(e.draws) |-> ToSet(e.draws[k])]
        cnt == [S \in all |-> 0]
        cn == FoldSeq(LAMBDA S, c : IF S \in DOMAIN c THEN [c EXCEPT ![S] = @ + 1] ELSE c, cnt, D)
    IN Fail(\A k \in 1..Len(D) : D[k] \in all /\ Len(e.draws[k]) = T.K, "not_a_sample")
       \cup Fail(\A S \in all : cn[S] > 0, "never_drawn")
       \cup Fail(\A S \in all : cn[S] >= T.low /\ cn[S] <= T.high, "not_uniform")
  ELSE  (* e.counts[i]: number of samples with element i - 1 *)
       Fail(Len(e.counts) = T.N, "size")
       \cup Fail(\A i \in 1..Len(e.counts) : e.counts[i] > 0, "never_drawn")
       \cup Fail(\A i \in 1..Len(e.counts) : e.counts[i] >= T.low /\ e.counts[i] <= T.high, "not_uniform")

(* a population of N = T.N2[1] * 2^24 + T.N2[2] elements, positions as     *)
(* <<high, low>>: K distinct ones, in order, from each sixteenth (with 800 *)
(* positions, one is missed with a probability of 10^-21)                  *)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
HugeClauses(e) ==
  IF e.outcome # "ok" THEN {"raised." \o e.outcome} ELSE
  Fail(Len(e.s) = T.K, "count")
  \cup Fail(\A k \in 1..Len(e.s) : e.s[k][1] >= 0 /\ Less(e.s[k], T.N2), "out_of_population")
  \cup Fail(\A k \in 1..(Len(e.s) - 1) : Less(e.s[k], e.s[k + 1]), "not_increasing")
  \cup Fail(\A b \in 0..15 : \E k \in 1..Len(e.s) : (e.s[k][1] * 16) \div T.N2[1] = b, "never_drawn")

(* a table read back *)
(* the type of a raw column is the one of its first piece: values that it  *)
(* cannot hold may be refused, but not changed                             *)
Held(v) == T.lo <= v /\ v <= T.hi /\ v % T.step = 0
AllHeld == \A k \in 1..Len(T.rows) : \A j \in 1..Len(T.raw) : T.raw[j] = 0 \/ Held(T.rows[k][j])
TableClauses(e) ==
  IF T.refused = 2 /\ e.outcome # "ok" THEN Fail(~AllHeld, "raised." \o e.outcome)
  ELSE IF T.refused = 1 THEN Fail(e.outcome # "ok", "not_refused")
  ELSE IF e.outcome # "ok" THEN {"raised." \o e.outcome}
  ELSE Fail(Len(e.rows) = Len(T.rows), "number_of_rows")
       \cup Fail(e.rows = T.rows, "values")

(* n = 2^T.e + T.d; a type of e.bits bits, signed or not *)
FitClauses(e) ==
  LET m == IF T.signed = 1 THEN 1 ELSE 0
      Fits(b) == T.e < b - m \/ (T.e = b - m /\ T.d < 0)
  IN IF Fits(64)
     THEN IF e.outcome # "ok" THEN {"raised." \o e.outcome}
          ELSE Fail(Fits(e.bits), "too_small") \cup Fail(e.signed = T.signed, "sign")
     ELSE Fail(e.outcome # "ok", "impossible_not_reported")

Clauses(e) ==
  CASE e.ev = "Error"   -> {"raised." \o e.what}
    [] e.ev = "Written" -> WriteClauses(e)
    [] e.ev = "Clash"   -> ClashClauses(e)
    [] e.ev = "Read"    -> ReadClauses(e)
    [] e.ev = "Sorted"  -> SortClauses(e)
    [] e.ev = "Sample"  -> SampleClauses(e)
    [] e.ev = "End"     -> SampleEnd
    [] e.ev = "Draws"   -> DrawClauses(e)
    [] e.ev = "Huge"    -> HugeClauses(e)
    [] e.ev = "Table"   -> TableClauses(e)
    [] e.ev = "Fit"     -> FitClauses(e)
    [] OTHER -> {"unknown_event"}

Init == /\ ci \in 1..Len(Cases) /\ l = 1 /\ drawn = 0 /\ bad = {}
        /\ pos = (IF T.kind = "read" THEN [k \in 1..Len(T.readers) |-> T.readers[k].lo] ELSE 0)
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ LET e == T.events[l] IN
           /\ bad' = bad \cup Clauses(e)
           /\ pos' = (CASE e.ev = "Read" /\ e.outcome = "ok" -> [pos EXCEPT ![e.r] = @ + Len(e.rows)]
                        [] e.ev = "Sample" -> pos + Min2(e.n, T.N - pos)
                        [] OTHER -> pos)
           /\ drawn' = (IF e.ev = "Sample" /\ e.outcome = "ok" THEN drawn + Len(e.s) ELSE drawn)
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, pos, drawn, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
