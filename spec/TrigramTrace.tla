---------------------------- MODULE TrigramTrace ----------------------------
(* Trigrams made by the code, checked against Trigram.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE)
Traces == File.traces
VARIABLES tid, l
T == Traces[tid]
E == T[l]
TraceView == <<tid, l>>
G == INSTANCE Trigram WITH N <- 37, MaxLen <- 0, Reset <- FALSE, text <- <<>>, tri <- 0, seen <- <<>>
Bad(kind, x) == PrintT(<<"MISMATCH", tid, l, kind>>) /\ PrintT(<<"DETAIL", tid, l, x>>) /\ FALSE
Whole(s) == IF Len(s) <= 2 THEN <<>> ELSE SubSeq(s, 3, Len(s))
(* x: texts as tokens, with the trigrams visited in one go, visited token by
   token, and those returned as a list, which leaves out the two that begin
   before the text                                                            *)
TriOk(y) == LET want == G!Trigrams(G!Letters(y.toks), 37)
            IN /\ y.visit = want
               /\ y.each = want
               /\ y.list = Whole(want)
Tri == /\ E.e = "tri"
       /\ LET bad == {n \in 1..Len(E.x) : ~TriOk(E.x[n])}
          IN IF bad = {} THEN TRUE ELSE Bad("trigrams", E.x[CHOOSE n \in bad : TRUE])
(* names: every trigram as it is printed                                      *)
Names == /\ E.e = "names"
         /\ LET bad == {n \in 1..Len(E.x) : E.x[n].s # G!Chars(E.x[n].t)}
            IN IF bad = {} THEN TRUE ELSE Bad("names", E.x[CHOOSE n \in bad : TRUE])
Stuck == E.e \in {"hang", "panic"} /\ Bad(E.e, "")
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ (Tri \/ Names \/ Stuck)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(T)) => PrintT(<<"ACCEPTED", tid>>)
TraceSpec == Init /\ [][Next]_<<tid, l>>
=============================================================================
