------------------------------ MODULE AbxTasks ------------------------------
(* The finite families of tasks explored exhaustively: by TLC in AbxPipeline,
   and by the real code, which gets them through AbxExport. *)
EXTENDS AbxSem, SequencesExt, FiniteSetsExt, TLC

CONSTANTS MaxItems, MaxLabel, Modes, FilterIds, Thresholds

---------------------------------------------------------------------------
(* The initial tasks: canonical databases (labels numbered by first         *)
(* occurrence), a mode (what the three columns are used for), filters.      *)

Growth(n) == {f \in [1..n -> 0..MaxLabel] :
                /\ f[1] = 0
                /\ \A i \in 2..n : f[i] <= 1 + SetMax({f[j] : j \in 1..(i - 1)})}

Mode(m) ==
  CASE m = 1 -> [on |-> 1, across |-> <<2>>, by |-> <<3>>, role |-> <<"on", "across", "by">>]
    [] m = 2 -> [on |-> 1, across |-> <<>>, by |-> <<3>>, role |-> <<"on", "other", "by">>]
    [] m = 3 -> [on |-> 1, across |-> <<2>>, by |-> <<>>, role |-> <<"on", "across", "other">>]
    [] m = 4 -> [on |-> 1, across |-> <<2, 3>>, by |-> <<>>, role |-> <<"on", "across", "across">>]
    [] m = 5 -> [on |-> 1, across |-> <<>>, by |-> <<2, 3>>, role |-> <<"on", "by", "by">>]
    [] m = 6 -> [on |-> 1, across |-> <<>>, by |-> <<>>, role |-> <<"on", "other", "other">>]

V(c, e) == [col |-> c, ext |-> e]
F1(c, e, S) == << [vars |-> <<V(c, e)>>, op |-> "in", args |-> S] >>
F2(c, e, d, g, op) == << [vars |-> <<V(c, e), V(d, g)>>, op |-> op, args |-> <<>>] >>

FilterOf(i) ==
  CASE i = 0  -> <<>>
    [] i = 1  -> F1(3, "", <<0>>)
    [] i = 2  -> F1(1, "", <<0, 2>>)
    [] i = 3  -> F1(3, "A", <<0>>)
    [] i = 4  -> F1(3, "B", <<1>>)
    [] i = 5  -> F1(3, "X", <<1>>)
    [] i = 6  -> F1(1, "1", <<1>>)
    [] i = 7  -> F1(1, "2", <<0>>)
    [] i = 8  -> F2(2, "A", 1, "B", "ne")
    [] i = 9  -> F2(1, "B", 3, "X", "eq")
    [] i = 10 -> F2(3, "A", 3, "X", "ne")
    [] i = 11 -> F2(1, "A", 2, "A", "eq")
    [] i = 12 -> F2(3, "A", 3, "B", "lt") \o F1(2, "A", <<0>>)
    [] i = 13 -> F2(2, "", 3, "", "eq")
    [] i = 14 -> F2(1, "", 3, "", "ne") \o F1(2, "X", <<0>>)
    [] i = 15 -> << [vars |-> <<V(1, "A"), V(2, "B"), V(3, "X")>>, op |-> "mod", args |-> <<2, 1>>] >>
    [] i = 16 -> F1(2, "1", <<0>>)
    [] i = 17 -> F1(2, "2", <<1>>)
    [] i = 18 -> F2(3, "A", 2, "2", "eq") \o F1(3, "B", <<0>>) \o F1(1, "1", <<0>>)

(* _1 and _2 are meaningful on on/across columns only *)
Legal(md, fs) ==
  /\ \A k \in 1..Len(fs) : \A j \in 1..Len(fs[k].vars) :
       fs[k].vars[j].ext \in {"1", "2"} => md.role[fs[k].vars[j].col] \in {"on", "across"}
  (* mixing a bare column with an extended one is refused by the tool *)
  /\ \A k \in 1..Len(fs) :
       LET free == {fs[k].vars[j] : j \in {h \in 1..Len(fs[k].vars) : md.role[fs[k].vars[h].col] # "by"}}
       IN  (\E v \in free : v.ext = "") => \A v \in free : v.ext = ""

TaskOf(n, c1, c2, c3, m, fi, th) ==
  LET md == Mode(m)
      defregs == <<V(1, "1"), V(1, "2")>> \o
                 FlattenSeq([k \in 1..Len(md.across) |-> <<V(md.across[k], "1"), V(md.across[k], "2")>>])
  IN [ items   |-> [i \in 1..n |-> <<c1[i], c2[i], c3[i]>>],
       on      |-> md.on, across |-> md.across, by |-> md.by, role |-> md.role,
       filters |-> FilterOf(fi), regs |-> defregs, thr |-> th, mode |-> m, fid |-> fi ]

Tasks == { TaskOf(n, c1, c2, c3, m, fi, th) :
             n \in {MaxItems}, c1 \in Growth(MaxItems), c2 \in Growth(MaxItems),
             c3 \in Growth(MaxItems), m \in Modes, fi \in FilterIds, th \in Thresholds }
LegalTasks == { t \in Tasks : Legal(Mode(t.mode), t.filters) }

=============================================================================
