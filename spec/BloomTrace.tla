----------------------------- MODULE BloomTrace -----------------------------
(* Operations on Bloom-filter sets of the code, checked against what Bloom says
   of them: what a set has to contain (must, all) and whether it is empty.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE)
Traces == File.traces
VARIABLES tid, l, set
T == Traces[tid]
E == T[l]
TraceView == <<tid, l>>
Bad(kind, x) == PrintT(<<"MISMATCH", tid, l, kind>>) /\ PrintT(<<"DETAIL", tid, l, x>>) /\ FALSE
R(s) == {s[i] : i \in 1..Len(s)}
Blank == [must |-> {}, all |-> FALSE, none |-> TRUE]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ set = <<>>
New == E.e = "new" /\ set' = (E.h :> (IF E.full THEN [must |-> {}, all |-> TRUE, none |-> FALSE] ELSE Blank)) @@ set
Add == E.e = "add" /\ set' = [set EXCEPT ![E.h] = [@ EXCEPT !.must = @ \cup R(E.vs), !.none = @ /\ E.vs = <<>>]]
Union == /\ E.e = "union"
         /\ LET a == set[E.h] b == set[E.o]
            IN set' = [set EXCEPT ![E.h] = [must |-> a.must \cup b.must, all |-> a.all \/ b.all, none |-> a.none /\ b.none]]
Inter == /\ E.e = "inter"
         /\ LET a == set[E.h] b == set[E.o]
            IN set' = [set EXCEPT ![E.h] = [must |-> IF a.all THEN b.must ELSE IF b.all THEN a.must ELSE a.must \cap b.must,
                                            all |-> a.all /\ b.all, none |-> a.none \/ b.none]]
(* has: for every value whether the set has it                                *)
Has == /\ E.e = "has" /\ UNCHANGED set
       /\ LET a == set[E.h]
              bad == {i \in 1..Len(E.vs) : \/ (a.all \/ E.vs[i] \in a.must) /\ ~E.has[i]
                                           \/ a.none /\ E.has[i]}
          IN IF bad = {} THEN TRUE ELSE Bad("membership", E.vs[CHOOSE i \in bad : TRUE])
(* what a set says of itself: whether no bit is on, which bits are             *)
Zero == /\ E.e = "zero" /\ UNCHANGED set
        /\ LET a == set[E.h] IN
             IF (a.none => E.zero) /\ ((a.all \/ a.must # {}) => ~E.zero) THEN TRUE ELSE Bad("empty", E.h)
Bits == /\ E.e = "bits" /\ UNCHANGED set
        /\ IF R(E.on) = R(E.raw) /\ Cardinality(R(E.on)) = Len(E.on) THEN TRUE ELSE Bad("bits", E.h)
(* bits of values: k of them, below m, however they are asked for              *)
Ones == /\ E.e = "ones" /\ UNCHANGED set
        /\ LET bad == {i \in 1..Len(E.x) : ~(E.x[i].a = E.x[i].b /\ Len(E.x[i].a) = E.k
                                             /\ \A j \in 1..Len(E.x[i].a) : E.x[i].a[j] \in 0..(E.m - 1))}
           IN IF bad = {} /\ E.gk = E.k /\ E.gm = E.m /\ E.ck = E.k /\ E.cm = E.m THEN TRUE ELSE Bad("ones", E.k)
Stuck == E.e \in {"hang", "panic"} /\ Bad(E.e, "") /\ UNCHANGED set
Next == /\ l <= Len(T)
        /\ (New \/ Add \/ Union \/ Inter \/ Has \/ Zero \/ Bits \/ Ones \/ Stuck)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(T)) => PrintT(<<"ACCEPTED", tid>>)
TraceSpec == Init /\ [][Next]_<<tid, l, set>>
=============================================================================
