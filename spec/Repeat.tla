------------------------------- MODULE Repeat -------------------------------
(***************************************************************************)
(* Repetition of requests.  A process has a global random generator, which *)
(* everything may move, and task objects, which remember fields of their   *)
(* last generation.  A generation sets what it depends on before using it, *)
(* so its result is a function of the request; memo collects all the       *)
(* results given to each request.  A process has a limited number of       *)
(* descriptors: a run takes Need of them and must give them back (Leak are *)
(* not), otherwise a later run of the same request fails.                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Specs, Thresholds, Seeds, MaxRuns, Leak
VARIABLES rng, objs, memo, runs, fds
vars == <<rng, objs, memo, runs, fds>>
Need == 2
Limit == 3

Objects == {1, 2}
Requests == Specs \X Thresholds \X Seeds
(* what is drawn: depends on the generator only when something is drawn *)
Draw(thr, r) == IF thr = 0 THEN 0 ELSE r
Init == rng \in Seeds /\ objs = [o \in Objects |-> [spec |-> 0, thr |-> 0, index |-> 0]]
        /\ memo = [q \in Requests |-> {}] /\ runs = 0 /\ fds = 0
Noise == rng' \in (0..3) /\ UNCHANGED <<objs, memo, runs, fds>>
New(o, s) == objs' = [objs EXCEPT ![o] = [spec |-> s, thr |-> 0, index |-> 0]] /\ UNCHANGED <<rng, memo, runs, fds>>
Generate(o, thr, seed) ==
  /\ objs[o].spec # 0 /\ runs < MaxRuns
  /\ LET r == seed                                 \* the generator is seeded first
         ob == [objs[o] EXCEPT !.thr = thr, !.index = 0]
     IN /\ memo' = [memo EXCEPT ![<<ob.spec, thr, seed>>] = @ \cup {IF fds + Need > Limit THEN <<"failed">> ELSE <<ob.spec, ob.thr, ob.index, Draw(ob.thr, r)>>}]
        /\ rng' = (r + 1) % 4
        /\ objs' = [objs EXCEPT ![o] = [ob EXCEPT !.index = 1]]
  /\ runs' = runs + 1
  /\ fds' = fds + Leak
Next == Noise \/ (\E o \in Objects : \/ \E s \in Specs : New(o, s)
                                     \/ \E t \in Thresholds, s \in Seeds : Generate(o, t, s))
Spec == Init /\ [][Next]_vars
Functional == \A q \in Requests : Cardinality(memo[q]) <= 1
=============================================================================
