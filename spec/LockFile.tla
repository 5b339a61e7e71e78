------------------------------ MODULE LockFile -------------------------------
(* Package lock: handles on lock files, shared and exclusive locks, released by
   Unlock and by Close.                                                       *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Handles, Paths
VARIABLES at, mode, want     \* handle -> its file ("": closed), mode held, mode asked for ("no": none)
lvars == <<at, mode, want>>
LInit == /\ at = [h \in Handles |-> ""] /\ mode = [h \in Handles |-> "no"] /\ want = [h \in Handles |-> "no"]
InWay(h, m) == {g \in Handles \ {h} : at[g] = at[h] /\ mode[g] # "no" /\ (m = "ex" \/ mode[g] = "ex")}
New(h, p) == at[h] = "" /\ at' = [at EXCEPT ![h] = p] /\ UNCHANGED <<mode, want>>
Ask(h, m) == /\ at[h] # "" /\ mode[h] = "no" /\ want[h] = "no" /\ want' = [want EXCEPT ![h] = m] /\ UNCHANGED <<at, mode>>
Grant(h) == /\ want[h] # "no" /\ InWay(h, want[h]) = {}
            /\ mode' = [mode EXCEPT ![h] = want[h]] /\ want' = [want EXCEPT ![h] = "no"] /\ UNCHANGED at
Unlock(h) == at[h] # "" /\ want[h] = "no" /\ mode' = [mode EXCEPT ![h] = "no"] /\ UNCHANGED <<at, want>>
Close(h) == /\ at[h] # "" /\ want[h] = "no" /\ at' = [at EXCEPT ![h] = ""] /\ mode' = [mode EXCEPT ![h] = "no"] /\ UNCHANGED want
Next == \E h \in Handles : (\E p \in Paths : New(h, p)) \/ (\E m \in {"sh", "ex"} : Ask(h, m)) \/ Grant(h) \/ Unlock(h) \/ Close(h)
Spec == LInit /\ [][Next]_lvars /\ \A h \in Handles : WF_lvars(Grant(h))
Exclusive == \A g, h \in Handles : (g # h /\ at[g] = at[h] /\ mode[g] = "ex") => mode[h] = "no"
Served == \A h \in Handles : (want[h] # "no" /\ InWay(h, want[h]) = {}) ~> (want[h] = "no" \/ InWay(h, want[h]) # {})
=============================================================================
