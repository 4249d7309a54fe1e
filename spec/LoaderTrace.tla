---------------------------- MODULE LoaderTrace ----------------------------
(* Validation of recorded loadings: T.events are the observations, e.items  *)
(* has, for each item loaded, the line its location comes from and its     *)
(* labels in the order of e.cols.                                          *)
EXTENDS LoaderSem, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, bad
vars == <<ci, l, bad>>
T == Cases[ci]
Fail(cond, name) == IF cond THEN {} ELSE {name}

LoadClauses(e) ==
  LET kept == Kept(T)
      removed == Removed(T) IN
  Fail(~UsedAmbiguous(T), "ambiguous_accepted") \cup
  Fail(ToSet(e.cols) = AllCols(T) /\ Len(e.cols) = Cardinality(AllCols(T)), "columns") \cup
  Fail(Len(e.locs) = Len(kept) /\ e.locs = [i \in 1..Len(kept) |-> T.loc[kept[i]]], "locations") \cup
  Fail(/\ Len(e.labels) = Len(kept)
       /\ \A i \in 1..Len(e.labels) : \A k \in 1..Len(e.cols) :
            e.labels[i][k] = Label(T, T.rows[kept[i]], e.cols[k]), "labels") \cup
  (* the removed lines are listed: their labels, the missing ones empty *)
  Fail(/\ Len(e.removed) = Len(removed)
       /\ \A i \in 1..Len(e.removed) : \A k \in 1..Len(e.rcols) :
            e.removed[i][k] = Label(T, T.rows[removed[i]], e.rcols[k]), "removed") \cup
  Fail(e.again = 1, "second_load_differs") \cup
  Fail(e.inputs = 1, "inputs_modified")
(* the tree of columns: each auxiliary column below the column it hangs on *)
TreeClauses(e) == Fail(
   /\ ToSet(e.roots) = ToSet(T.cols)
   /\ ToSet(e.edges) = UNION {{<<T.aux[a].key, T.aux[a].cols[k]>> : k \in 1..Len(T.aux[a].cols)} :
                               a \in {b \in 1..Len(T.aux) : InUse(T, b)}}, "hierarchy")

Clauses(e) == CASE e.ev = "Load" -> LoadClauses(e) \cup TreeClauses(e)
                [] e.ev = "Refused" -> Fail(Ambiguous(T) \/ T.header = 0, "refused." \o e.what)
                [] e.ev = "Error" -> {"raised." \o e.what}
                [] OTHER -> {"unknown"}
HeaderClause(e) == IF T.header = 0 THEN Fail(e.ev = "Refused", "bad_header_accepted") ELSE Clauses(e)

Init == ci \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ bad' = bad \cup HeaderClause(T.events[l])
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
