---------------------------- MODULE DocTableTrace ----------------------------
(* Traces of package dmd against the document table.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE).traces
VARIABLES tid, l, given, kept, open
T == Traces[tid]
E == T[l]
TraceView == <<tid, l>>
Chk(kind, cond) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", tid, l, kind>>) /\ FALSE
Same == UNCHANGED <<given, kept, open>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ given = <<>> /\ kept = 0 /\ open = FALSE
Step ==
    \/ E.e = "dnew" /\ Chk("open", E.ok /\ ~open) /\ open' = TRUE /\ UNCHANGED <<given, kept>>
    \/ /\ E.e = "dadd" /\ Chk("add", E.ok /\ open)
       /\ Chk("number", E.id = Len(given) + 1 /\ E.last = E.id)
       /\ given' = Append(given, E.rec) /\ UNCHANGED <<kept, open>>
    \/ E.e = "dclose" /\ Chk("close", E.ok) /\ open' = FALSE /\ kept' = Len(given) /\ UNCHANGED given
    \/ E.e \in {"dopen", "dcloser"} /\ Chk(E.e, E.ok) /\ Same
    \/ /\ E.e = "dlook"
       /\ Chk("lookup", \A i \in 1..Len(E.x) :
              IF E.x[i].id <= kept THEN E.x[i].err = "" /\ E.x[i].rec = given[E.x[i].id] ELSE E.x[i].err # "")
       /\ Same
    \/ E.e = "dnum" /\ Chk("count", E.err = "" /\ E.n = kept) /\ Same
    \/ E.e \in {"hang", "panic"} /\ Chk(E.e, FALSE) /\ Same
TraceNext == /\ l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l = Len(T)) => PrintT(<<"ACCEPTED", tid>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, given, kept, open>>
=============================================================================
