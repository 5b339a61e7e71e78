------------------------------- MODULE MCDupi -------------------------------
(* Exhaustive exploration of Dupi within small constants.                    *)
EXTENDS Dupi
CONSTANTS Roots, WH, RH, QH, MaxDocs, MaxWords, MaxSess, KS, NS, NWords
VARIABLE sessions
allvars == <<svars, sessions>>
Words == 1..NWords
(* hash values chosen so that reductions and collisions happen; word 3
   collides with the combination of the first two *)
HV == <<<<1, 5>>, <<2, 9>>, <<3, 12>>, <<4, 5>>>>
Docs == {[id |-> ToString(ws), ws |-> ws, c |-> <<ToString(ws)>>] :
           ws \in UNION {[1..l -> Words] : l \in 0..MaxWords}}
Cfgs == {[k |-> k, m |-> 1, n |-> n, w |-> 1, fl |-> 1, s |-> k, tok |-> "words.simple"] : k \in KS, n \in NS}
MCInit == SInit /\ sessions = 0
New(A) == sessions < MaxSess /\ A /\ sessions' = sessions + 1
Same(A) == A /\ UNCHANGED sessions
DocsAdded == FoldFunction(LAMBDA w, s : s + Len(w.x.docs), 0, wr)
MCNext ==
    \/ \E r \in Roots, h \in WH, c \in Cfgs : New(Create(r, h, c))
    \/ \E r \in Roots, h \in WH : New(OpenW(r, h))
    \/ \E r \in Roots, h \in RH : New(OpenR(r, h))
    \/ \E h \in DOMAIN wr, d \in Docs : Len(wr[h].x.docs) < MaxDocs /\ Same(Add(h, <<d>>))
    \/ \E h \in DOMAIN wr : Same(CloseW(h))
    \/ \E h \in DOMAIN rd : Same(CloseR(h))
    \/ \E h \in DOMAIN wr : Same(RemoveW(h))
    \/ \E h \in DOMAIN rd : Readers(rd[h].root) = {h} /\ Same(RemoveR(h))
    \/ \E r \in Roots, t \in Roots : Same(Copy(r, t))
    \/ \E r \in Roots, t \in Roots : Same(Move(r, t))
    \/ \E r \in Roots : Same(Damage(r))
    \/ \E r \in Roots : Same(Repair(r))
    \/ \E q \in QH \ DOMAIN qs, h \in DOMAIN rd : Same(QStart(q, h))
    \/ \E q \in DOMAIN qs : LET x == rd[qs[q].h].x IN
           \E f \in Dups(x), num \in 1..2 : Same(Deliver(q, f, num))
MCSpec == MCInit /\ [][MCNext]_allvars
Constr == Cardinality(DOMAIN disk) <= 2
=============================================================================
