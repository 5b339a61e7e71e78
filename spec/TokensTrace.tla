----------------------------- MODULE TokensTrace -----------------------------
(* Tokens returned by the code, checked against Tokens.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE)
Traces == File.traces
VARIABLES tid, l
T == Traces[tid]
E == T[l]
TraceView == <<tid, l>>
K == INSTANCE Tokens WITH Units <- {}, MaxLen <- 0, LastFlushed <- TRUE, text <- <<>>, i <- 0, j <- 0, inWord <- FALSE, toks <- <<>>, over <- FALSE
Bad(kind, x) == PrintT(<<"MISMATCH", tid, l, kind>>) /\ PrintT(<<"DETAIL", tid, l, x>>) /\ FALSE

(* x: texts with what was returned; lit and want: the bytes of a token and of
   the text at its place; same: what was in the destination is still there   *)
TokOk(y) == /\ y.same
            /\ IF ~y.valid THEN y.t = <<>>
               ELSE /\ K!Good(y.u, y.t)
                    /\ \A n \in 1..Len(y.t) : y.t[n].lit = y.t[n].want
Tok == /\ E.e = "tok"
       /\ LET bad == {n \in 1..Len(E.x) : ~TokOk(E.x[n])}
          IN IF bad = {} THEN TRUE ELSE Bad("tokens", E.x[CHOOSE n \in bad : TRUE])
(* ranges of characters: o observed, e expected, "u" unknown                  *)
Runes == /\ E.e = "runes"
         /\ LET bad == {n \in 1..Len(E.x) : E.x[n].e # "u" /\ E.x[n].e # E.x[n].o}
            IN IF bad = {} THEN TRUE ELSE Bad("letters and digits", E.x[CHOOSE n \in bad : TRUE])
(* pairs of words that differ in letter case only, with their hashes          *)
Pairs == /\ E.e = "pairs"
         /\ LET bad == {n \in 1..Len(E.x) : E.x[n].a # E.x[n].b}
            IN IF bad = {} THEN TRUE ELSE Bad("letter case", E.x[CHOOSE n \in bad : TRUE])
(* texts that are not valid have no fingerprint                               *)
None == E.e = "none" /\ IF \A n \in 1..Len(E.x) : E.x[n] = 0 THEN TRUE ELSE Bad("invalid text", E.x)
Stuck == E.e \in {"hang", "panic"} /\ Bad(E.e, "")

Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ (Tok \/ Runes \/ Pairs \/ None \/ Stuck)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(T)) => PrintT(<<"ACCEPTED", tid>>)
TraceSpec == Init /\ [][Next]_<<tid, l>>
=============================================================================
