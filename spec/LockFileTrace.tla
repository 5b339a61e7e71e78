---------------------------- MODULE LockFileTrace ----------------------------
(* Traces of package lock, recorded from several processes.                   *)
EXTENDS Sequences, Json, IOUtils, Integers, TLC
Traces == JsonDeserialize(IOEnv.TRACE).traces
HS == UNION {{Traces[t][i].h : i \in {j \in 1..Len(Traces[t]) : "h" \in DOMAIN Traces[t][j]}} : t \in 1..Len(Traces)}
VARIABLES tid, l, at, mode, want
L == INSTANCE LockFile WITH Handles <- HS, Paths <- {}
T == Traces[tid]
E == T[l]
TraceView == <<tid, l>>
Chk(kind, cond) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", tid, l, kind>>) /\ FALSE
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ L!LInit
Dead(hs) == /\ at' = [h \in HS |-> IF h \in hs THEN "" ELSE at[h]]
            /\ mode' = [h \in HS |-> IF h \in hs THEN "no" ELSE mode[h]]
            /\ want' = [h \in HS |-> IF h \in hs THEN "no" ELSE want[h]]
Step == \/ E.e = "lnew" /\ Chk("lnew", E.ok) /\ L!New(E.h, E.p)
        \/ E.e = "ask" /\ L!Ask(E.h, E.m)
        \/ E.e = "grant" /\ Chk("lock", E.ok) /\ Chk("exclusion", L!InWay(E.h, want[E.h]) = {}) /\ L!Grant(E.h)
        \/ E.e = "unlock" /\ Chk("unlock", E.ok) /\ L!Unlock(E.h)
        \/ E.e = "lclose" /\ Chk("lclose", E.ok) /\ L!Close(E.h)
        \/ E.e = "die" /\ Dead({E.hs[i] : i \in 1..Len(E.hs)})
        \/ /\ E.e = "waiting" /\ Chk("blocked", \A h \in HS : want[h] # "no" => L!InWay(h, want[h]) # {})
           /\ UNCHANGED <<at, mode, want>>
        \/ E.e \in {"hang", "panic"} /\ Chk(E.e, FALSE) /\ UNCHANGED <<at, mode, want>>
TraceNext == /\ l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l = Len(T)) => PrintT(<<"ACCEPTED", tid>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, at, mode, want>>
=============================================================================
