----------------------------- MODULE WindowTrace -----------------------------
(* Fingerprints returned by blotters, checked against the definition.         *)
EXTENDS DupiCore, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE)
Traces == File.traces
H == File.H
VARIABLES tid, l, c, hist
T == Traces[tid]
E == T[l]
TraceView == <<tid, l>>
Bad(kind, x) == PrintT(<<"MISMATCH", tid, l, kind>>) /\ PrintT(<<"DETAIL", tid, l, x>>) /\ FALSE
Init == tid \in 1..Len(Traces) /\ l = 1 /\ c = [k |-> 1, m |-> 1] /\ hist = <<>>
New == /\ E.e = "new" /\ IF E.ok = (E.m >= 1 /\ E.k >= 1) THEN TRUE ELSE Bad("new", E)
       /\ c' = [k |-> E.k, m |-> E.m] /\ hist' = <<>>
Conf == /\ E.e = "conf" /\ UNCHANGED <<c, hist>>
        /\ IF E.k = c.k /\ E.m = c.m /\ E.il = c.m THEN TRUE ELSE Bad("config", E)
(* words ws were taken; b is what was returned after each                     *)
Words == /\ E.e = "words" /\ UNCHANGED c
         /\ LET h2 == TLCEval(hist \o Hashes(E.ws, H))
                n == Len(hist)
                bad == {i \in 1..Len(E.ws) : E.b[i] # Window(h2, n + i, c.k, c.m)}
            IN /\ hist' = h2
               /\ Len(E.b) = Len(E.ws)
               /\ IF bad = {} THEN TRUE ELSE Bad("fingerprint", Min(bad))
(* hashes of variants of the words: v[i] is a word, h its hash                *)
Variants == /\ E.e = "variants" /\ UNCHANGED <<c, hist>>
            /\ LET bad == {i \in 1..Len(E.v) : E.h[i] # H[E.v[i]]} IN IF bad = {} THEN TRUE ELSE Bad("hash", Min(bad))
(* pairs of words that differ in letter case only, with their hashes          *)
Pairs == /\ E.e = "pairs" /\ UNCHANGED <<c, hist>>
         /\ LET bad == {n \in 1..Len(E.x) : E.x[n].a # E.x[n].b}
            IN IF bad = {} THEN TRUE ELSE Bad("letter case", E.x[CHOOSE n \in bad : TRUE])
Stuck == E.e \in {"hang", "panic"} /\ Bad(E.e, "") /\ UNCHANGED <<c, hist>>
Next == /\ l <= Len(T)
        /\ (New \/ Conf \/ Words \/ Variants \/ Pairs \/ Stuck)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(T)) => PrintT(<<"ACCEPTED", tid>>)
TraceSpec == Init /\ [][Next]_<<tid, l, c, hist>>
=============================================================================
