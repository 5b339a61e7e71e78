----------------------------- MODULE PostingGen -----------------------------
(* Behaviours of Posting without crashes, with their history, to be executed
   on the code (tlc -simulate).                                              *)
EXTENDS Posting, Json
VARIABLE h
GInit == Init /\ h = <<>>
GNext == \/ \E S \in SUBSET Slots : AddDoc(S) /\ h' = Append(h, [a |-> "add", s |-> SetToSeq(S)])
         \/ Close /\ h' = Append(h, [a |-> "close", s |-> <<>>])
         \/ Open /\ h' = Append(h, [a |-> "open", s |-> <<>>])
         \/ Do /\ UNCHANGED h
GSpec == GInit /\ [][GNext]_<<vars, h>>
Emit == (sess = "none" /\ (doc = MaxDoc \/ nsess = MaxSess)) => PrintT(ToJson([h |-> h]))
=============================================================================
