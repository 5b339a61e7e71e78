------------------------------ MODULE DocTable ------------------------------
(* The document table: fixed-size records appended through a buffer of Rate
   records; record 0 is a placeholder, documents are numbered from 1 on.  The
   process may die at any moment; a session that was closed keeps its records.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rates, Recs, MaxDocs, MaxSess, Design
(* Design "code"; wrong ones: "pads": every session begins with a placeholder;
   "full": the buffer is written when it is full after adding rather than before,
   counting the document twice                                                *)
VARIABLES file, buf, rate, open, given, kept, nsess
(* given: what this and all closed sessions were told: sequence, entry i is
   the record added as document i; kept: how many of them are of closed
   sessions (a crash keeps the records that were written, as garbage)        *)
vars == <<file, buf, rate, open, given, kept, nsess>>
Pad == "pad"

Start(r) == buf' = (IF file = <<>> \/ Design = "pads" THEN <<Pad>> ELSE <<>>) /\ rate' = r /\ open' = TRUE
Init == file = <<>> /\ buf = <<Pad>> /\ rate \in Rates /\ open = TRUE /\ given = <<>> /\ kept = 0 /\ nsess = 1

Add(r) == LET full == Len(buf) = rate IN
    /\ open /\ Len(given) < MaxDocs
    /\ file' = IF full THEN file \o buf ELSE file
    /\ buf' = IF full /\ Design # "full" THEN <<r>> ELSE Append(buf, r)
    /\ given' = Append(given, r)
    /\ UNCHANGED <<rate, open, kept, nsess>>
NextId == Len(file) + Len(buf)          \* the number the next document gets
Close == open /\ file' = file \o buf /\ buf' = <<>> /\ open' = FALSE /\ kept' = Len(given)
         /\ UNCHANGED <<rate, given, nsess>>
Open(r) == ~open /\ nsess < MaxSess /\ Start(r) /\ nsess' = nsess + 1 /\ UNCHANGED <<file, given, kept>>
(* the records written before a crash stay and take up their numbers          *)
Crash == /\ open /\ file # <<>> /\ kept > 0
         /\ buf' = <<>> /\ open' = FALSE
         /\ given' = SubSeq(given, 1, Len(file) - 1)
         /\ UNCHANGED <<file, rate, kept, nsess>>
Next == (\E r \in Recs : Add(r)) \/ Close \/ (\E r \in Rates : Open(r)) \/ Crash
Spec == Init /\ [][Next]_vars

Numbering == open => NextId = Len(given) + 1
Found == \A i \in 1..kept : file[i + 1] = given[i]
NumDocs == ~open => Len(file) - 1 = Len(given)
Buffered == open => Len(buf) <= rate
=============================================================================
