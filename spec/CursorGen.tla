------------------------------ MODULE CursorGen ------------------------------
(* Behaviours of Cursor to be executed on the code (tlc -simulate).           *)
EXTENDS Cursor, Json
VARIABLE calls
GInit == Init /\ calls = <<>>
GNext == /\ ~out.eof
         /\ \E caps \in BufSeqs : Asked(caps) /\ calls' = Append(calls, caps)
GSpec == GInit /\ [][GNext]_<<vars, calls>>
Emit == out.eof => PrintT(ToJson([shape |-> shape, calls |-> calls]))
=============================================================================
