---------------------------- MODULE RepeatTrace ----------------------------
(* Validation of repeated requests: every run of T gives, for each request  *)
(* (e.req) and stage (e.what), the digest e.dig of what it wrote; memo     *)
(* remembers the first one.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, memo, bad
vars == <<ci, l, memo, bad>>
T == Cases[ci]
Key(e) == e.req \o "/" \o e.what
Init == ci \in 1..Len(Cases) /\ l = 1 /\ memo = << >> /\ bad = {}
Known(k) == \E i \in 1..Len(memo) : memo[i][1] = k
Value(k) == memo[CHOOSE i \in 1..Len(memo) : memo[i][1] = k][2]
Step == /\ l <= Len(T.events) /\ l' = l + 1
        /\ LET e == T.events[l] IN
           IF e.ev = "Error" THEN bad' = bad \cup {"raised." \o e.what \o " with " \o e.env} /\ UNCHANGED memo
           ELSE IF Known(Key(e))
           THEN /\ bad' = bad \cup (IF Value(Key(e)) = e.dig THEN {} ELSE {e.what \o "_differs with " \o e.env})
                /\ UNCHANGED memo
           ELSE /\ memo' = Append(memo, <<Key(e), e.dig>>) /\ UNCHANGED bad
        /\ UNCHANGED ci
Verdict == /\ l = Len(T.events) + 1 /\ l' = l + 1
           /\ \A s \in bad : PrintT("BAD|" \o T.id \o "|" \o s)
           /\ PrintT("DONE|" \o T.id)
           /\ UNCHANGED <<ci, memo, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
