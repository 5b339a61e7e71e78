------------------------------- MODULE Bloom -------------------------------
(* Sets kept in Bloom filters.  pos[v] are the bits of value v; a set is the
   bits that are on.  must: what the set has to contain by what was done with
   it; none: nothing was ever put into it.  A set remembers the value added
   last; Skip: adding that value again does nothing.                        *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Sets, Values, Bits, Skip, MaxOps
VARIABLES pos, bits, must, none, last, n
vars == <<pos, bits, must, none, last, n>>
Init == /\ pos \in [Values -> SUBSET Bits \ {{}}]
        /\ bits = [s \in Sets |-> {}] /\ must = [s \in Sets |-> {}] /\ none = [s \in Sets |-> TRUE]
        /\ last = [s \in Sets |-> {}] /\ n = 0
Has(s, v) == pos[v] \subseteq bits[s]
Do == n < MaxOps /\ n' = n + 1 /\ UNCHANGED pos
Add(s, v) == /\ Do
             /\ bits' = IF Skip /\ last[s] = {v} THEN bits ELSE [bits EXCEPT ![s] = @ \cup pos[v]]
             /\ last' = [last EXCEPT ![s] = {v}]
             /\ must' = [must EXCEPT ![s] = @ \cup {v}]
             /\ none' = [none EXCEPT ![s] = FALSE]
Union(s, t) == /\ Do /\ bits' = [bits EXCEPT ![s] = @ \cup bits[t]]
               /\ must' = [must EXCEPT ![s] = @ \cup must[t]]
               /\ none' = [none EXCEPT ![s] = @ /\ none[t]] /\ UNCHANGED last
Inter(s, t) == /\ Do /\ bits' = [bits EXCEPT ![s] = @ \cap bits[t]]
               /\ must' = [must EXCEPT ![s] = @ \cap must[t]]
               /\ none' = [none EXCEPT ![s] = @ \/ none[t]] /\ UNCHANGED last
All(s) == /\ Do /\ bits' = [bits EXCEPT ![s] = Bits] /\ must' = [must EXCEPT ![s] = Values]
          /\ none' = [none EXCEPT ![s] = FALSE] /\ last' = [last EXCEPT ![s] = {}]
New(s) == /\ Do /\ bits' = [bits EXCEPT ![s] = {}] /\ must' = [must EXCEPT ![s] = {}]
          /\ none' = [none EXCEPT ![s] = TRUE] /\ last' = [last EXCEPT ![s] = {}]
Next == \E s \in Sets : New(s) \/ All(s) \/ (\E v \in Values : Add(s, v)) \/ (\E t \in Sets : Union(s, t) \/ Inter(s, t))
Spec == Init /\ [][Next]_vars
NoFalseNegative == \A s \in Sets : \A v \in must[s] : Has(s, v)
EmptyHasNothing == \A s \in Sets : none[s] => (bits[s] = {} /\ \A v \in Values : ~Has(s, v))
=============================================================================
