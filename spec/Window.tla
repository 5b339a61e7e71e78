------------------------------- MODULE Window -------------------------------
(* The running combination over a ring of the last k hashes, m rings taken in
   turn, against the definition (Window of DupiCore), for all histories.     *)
EXTENDS DupiCore
CONSTANTS KS, MS, V, MaxLen, Xors   \* Xors: the hash leaving the ring is taken out
VARIABLES k, m, ring, x, at, turn, hist, out
vars == <<k, m, ring, x, at, turn, hist, out>>
Init == /\ k \in KS /\ m \in MS
        /\ ring = [s \in 1..m |-> [i \in 1..k |-> 0]]
        /\ x = [s \in 1..m |-> 0] /\ at = [s \in 1..m |-> 1] /\ turn = 1
        /\ hist = <<>> /\ out = 0
Word(h) ==
    /\ Len(hist) < MaxLen
    /\ LET old == IF Xors THEN ring[turn][at[turn]] ELSE 0
           y == (x[turn] ^^ old) ^^ h
       IN x' = [x EXCEPT ![turn] = y] /\ out' = y
    /\ ring' = [ring EXCEPT ![turn][at[turn]] = h]
    /\ at' = [at EXCEPT ![turn] = (@ % k) + 1]
    /\ turn' = (turn % m) + 1
    /\ hist' = Append(hist, <<0, h>>)
    /\ UNCHANGED <<k, m>>
Next == \E h \in V : Word(h)
Spec == Init /\ [][Next]_vars
DupiWindow == Window(hist, Len(hist), k, m)
LastK == hist # <<>> => <<0, out>> = DupiWindow
(* what came more than k*m words before does not matter                       *)
Forgets == Len(hist) > k * m =>
             LET n == k * m + 1 IN
             <<0, out>> = Window(SubSeq(hist, Len(hist) - n + 1, Len(hist)), n, k, m)
=============================================================================
