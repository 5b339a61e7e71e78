------------------------------- MODULE LockGen -------------------------------
(* Schedules of requests from Lock, to be executed by real processes
   (tlc -simulate): steps of the system (Grant, Enter, Remove2) come first.   *)
EXTENDS Lock, Json, Sequences
CONSTANT Length
VARIABLE hist
GInit == Init /\ hist = <<>>
Urgent == \E s \in Sessions : Grant(s) \/ Enter(s) \/ Remove2(s)
Few(a) == Cardinality({i \in DOMAIN hist : hist[i].a = a}) < 3
Step(s) == \/ \E k \in Kinds : Ask(s, k) /\ hist' = Append(hist, [a |-> "ask", s |-> s, k |-> k])
           \/ Close(s) /\ hist' = Append(hist, [a |-> "close", s |-> s, k |-> kind[s]])
           \/ Add(s) /\ hist' = Append(hist, [a |-> "add", s |-> s, k |-> kind[s]])
           \/ Few("remove") /\ Remove1(s) /\ hist' = Append(hist, [a |-> "remove", s |-> s, k |-> kind[s]])
           \/ Few("die") /\ kind[s] # "create" /\ Die(s) /\ hist' = Append(hist, [a |-> "die", s |-> s, k |-> kind[s]])
GNext == IF ENABLED Urgent THEN Urgent /\ UNCHANGED hist
         ELSE Len(hist) < Length /\ \E s \in Sessions : Step(s)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Length => PrintT(ToJson([h |-> hist]))
=============================================================================
