------------------------------- MODULE Cursor -------------------------------
(* How duplicates are enumerated: every shard has its fingerprints sorted by
   the length of their lists and a cursor on them; a call delivers pieces of the
   list of the shard whose cursor is at the longest one.  Checked to refine the
   enumeration of Dupi (MayDeliver/AtEnd), for all distributions of list lengths
   over small shards and all sequences of result buffers.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSh, K, MaxLen, Caps, MaxBatch, Design
(* Design "code"; wrong ones: "first": the first shard with something left
   rather than the one with the longest list; "own": an exhausted shard ends the
   enumeration; "empty": a list that was complete already fills a buffer with
   nothing; "lost": a list longer than the buffer is not continued             *)
Shards == 1..NSh
Lengths == {f \in [1..K -> 0..MaxLen] : \A i \in 1..(K-1) : f[i] >= f[i+1]}
BufSeqs == UNION {[1..b -> Caps] : b \in 1..MaxBatch}     \* 0: unlimited

VARIABLES shape, cur, abs, out
vars == <<shape, cur, abs, out>>
(* cur: [at: shard -> position or 0 when exhausted, rd: shard -> documents read
   of the list there, i: shard of the longest list]
   abs: [cur, pos, done] of the abstract enumeration; fingerprints are
   <<shard, position>>
   out: result of the last call [n, eof, ok]                                  *)
None == <<0, 0>>
Total(c, s) == shape[s][c.at[s]]
SetMax(c) == LET live == {s \in Shards : c.at[s] # 0 /\ Total(c, s) > 0}
                 top == IF Design = "first" THEN live ELSE {s \in live : \A t \in live : Total(c, t) <= Total(c, s)}
             IN [c EXCEPT !.i = IF top = {} THEN 1 ELSE CHOOSE s \in top : \A t \in top : s <= t]
Advance(c, s) == LET d == [c EXCEPT !.at[s] = IF c.at[s] = K \/ Total(c, s) <= 1 THEN 0 ELSE @ + 1, !.rd[s] = 0]
                 IN IF Design = "own" /\ d.at[s] # 0 THEN d ELSE SetMax(d)

(* fill one buffer of capacity cap from shard s: documents put, cursor after  *)
Fill(c, s, cap) ==
    LET left == Total(c, s) - c.rd[s]
    IN IF cap = 0 \/ left < cap
       THEN [k |-> left, c |-> Advance(c, s)]
       ELSE [k |-> cap, c |-> IF Design = "lost" THEN Advance(c, s) ELSE [c EXCEPT !.rd[s] = @ + cap]]

RECURSIVE Call(_, _, _)
Call(c, caps, ps) ==
    IF caps = <<>> THEN [c |-> c, ps |-> ps, eof |-> FALSE]
    ELSE LET s == c.i IN
         IF c.at[s] = 0 \/ Total(c, s) <= 1 THEN [c |-> c, ps |-> ps, eof |-> ps = <<>>]
         ELSE LET f == Fill(c, s, Head(caps))
              IN IF f.k = 0 /\ Design # "empty" THEN Call(IF f.c = c THEN Advance(c, s) ELSE f.c, caps, ps)
                 ELSE Call(f.c, Tail(caps), Append(ps, [f |-> <<s, c.at[s]>>, k |-> f.k]))

Len2(f) == shape[f[1]][f[2]]
Dups == {f \in Shards \X (1..K) : Len2(f) >= 2}
RestA(a) == IF a.cur = None \/ a.pos = Len2(a.cur) THEN (Dups \ a.done) \ {a.cur} ELSE {}
AtEnd(a) == (a.cur = None \/ a.pos = Len2(a.cur)) /\ RestA(a) = {}
May(a, f) == IF a.cur # None /\ a.pos < Len2(a.cur) THEN f = a.cur
             ELSE f \in {g \in RestA(a) : \A h \in RestA(a) : Len2(h) <= Len2(g)}
Give(a, f, k) == IF a.cur = f THEN [a EXCEPT !.pos = @ + k]
                 ELSE [cur |-> f, pos |-> k, done |-> a.done \cup (IF a.cur = None THEN {} ELSE {a.cur})]
RECURSIVE Track(_, _)
Track(a, ps) == IF ps = <<>> THEN [a |-> a, ok |-> TRUE]
                ELSE LET p == Head(ps) IN
                     IF /\ May(a, p.f) /\ p.k >= 1
                        /\ p.k <= Len2(p.f) - (IF a.cur = p.f THEN a.pos ELSE 0)
                     THEN Track(Give(a, p.f, p.k), Tail(ps)) ELSE [a |-> a, ok |-> FALSE]

Init == /\ shape \in [Shards -> Lengths]
        /\ cur = SetMax([at |-> [s \in Shards |-> 1], rd |-> [s \in Shards |-> 0], i |-> 1])
        /\ abs = [cur |-> None, pos |-> 0, done |-> {}]
        /\ out = [n |-> 0, eof |-> FALSE, ok |-> TRUE, batch |-> 0]
Asked(caps) ==
    LET r == Call(cur, caps, <<>>)  t == Track(abs, r.ps)
    IN /\ cur' = r.c /\ abs' = t.a /\ UNCHANGED shape
       /\ out' = [n |-> Len(r.ps), eof |-> r.eof, ok |-> t.ok, batch |-> Len(caps)]
Next == \E caps \in BufSeqs : Asked(caps)
Spec == Init /\ [][Next]_vars

Refines == out.ok
EndsRight == (out.eof => AtEnd(abs)) /\ ((out.batch > 0 /\ out.n = 0) => out.eof)
(* it ends: every call that is not the end makes progress                     *)
Progress == [][out'.eof \/ out'.n > 0]_vars
=============================================================================
