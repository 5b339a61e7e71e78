------------------------------- MODULE Readers -------------------------------
(* Goroutines reading through one reading session share its file handles.  A
   handle has one offset; a reader either moves it and then reads (two steps,
   Positional = FALSE), or reads at a place of its own choosing (one step).
   A lookup reads a list of records, a list in the posting file being a chain of
   chunks.  Checked: every reader gets what it would get alone.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Readers, Records, Chains, Positional
(* Records: number of records of the file; record i holds i.
   Chains: the chains of records that can be asked for                       *)
VARIABLES off, pc, want, got, todo
vars == <<off, pc, want, got, todo>>
ChainSet == {<<>>} \cup UNION {[1..n -> 1..Records] : n \in 1..Chains}
Init == /\ off = 1
        /\ pc = [r \in Readers |-> "idle"]
        /\ want = [r \in Readers |-> <<>>] /\ got = [r \in Readers |-> <<>>] /\ todo = [r \in Readers |-> <<>>]
Ask(r) == /\ pc[r] = "idle"
          /\ \E c \in ChainSet : want' = [want EXCEPT ![r] = c] /\ todo' = [todo EXCEPT ![r] = c]
          /\ got' = [got EXCEPT ![r] = <<>>]
          /\ pc' = [pc EXCEPT ![r] = "next"] /\ UNCHANGED off
ReadAt(r) == /\ Positional /\ pc[r] = "next" /\ todo[r] # <<>>
             /\ got' = [got EXCEPT ![r] = Append(@, Head(todo[r]))]
             /\ todo' = [todo EXCEPT ![r] = Tail(@)]
             /\ UNCHANGED <<off, pc, want>>
Seek(r) == /\ ~Positional /\ pc[r] = "next" /\ todo[r] # <<>>
           /\ off' = Head(todo[r]) /\ pc' = [pc EXCEPT ![r] = "read"]
           /\ UNCHANGED <<want, got, todo>>
Read(r) == /\ pc[r] = "read"
           /\ got' = [got EXCEPT ![r] = Append(@, IF off > Records THEN 0 ELSE off)]
           /\ off' = IF off > Records THEN off ELSE off + 1
           /\ todo' = [todo EXCEPT ![r] = Tail(@)] /\ pc' = [pc EXCEPT ![r] = "next"]
           /\ UNCHANGED want
Done(r) == /\ pc[r] = "next" /\ todo[r] = <<>>
           /\ pc' = [pc EXCEPT ![r] = "idle"] /\ UNCHANGED <<off, want, got, todo>>
Next == \E r \in Readers : Ask(r) \/ ReadAt(r) \/ Seek(r) \/ Read(r) \/ Done(r)
Spec == Init /\ [][Next]_vars /\ \A r \in Readers : WF_vars(ReadAt(r) \/ Seek(r) \/ Read(r) \/ Done(r))
AsAlone == \A r \in Readers : (pc[r] = "next" /\ todo[r] = <<>>) => got[r] = want[r]
Finishes == \A r \in Readers : (pc[r] = "next") ~> (pc[r] = "idle")
=============================================================================
