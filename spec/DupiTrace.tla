------------------------------ MODULE DupiTrace ------------------------------
(* Traces recorded from the real code, checked against Dupi.

   The file named by the environment variable TRACE holds
     traces  sequence of traces, a trace is a sequence of events
     H       hash of every word, as observed
     only    if not empty: the kinds of comparison this run is about; the
             other comparisons are taken as given
   An event has the operation, its arguments and everything the operation
   returned.  A step of this specification is the step of Dupi with the same
   arguments, whose result must be the one that was observed.               *)
EXTENDS DupiCore, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACE)
Traces == File.traces
WordHash == File.H
Only == Range1(File.only)
NoFp == -1

VARIABLES tid, l, disk, wr, rd, qs
S == INSTANCE Dupi WITH H <- WordHash, None <- NoFp
svars == <<disk, wr, rd, qs>>

T == Traces[tid]
E == T[l]
TraceView == <<tid, l>>

(* cond must hold; if it does not, say so (and the trace is refused)         *)
Chk(kind, cond) ==
    IF Only # {} /\ kind \notin Only THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"MISMATCH", tid, l, kind>>) /\ FALSE

(* every two documents of content x that share a passage are together in one
   of the observed sets of documents (identities)                            *)
Meet(x, sets) ==
    LET len == x.c.k * x.c.m + 1
        runs == TLCEval([i \in 1..Len(x.docs) |-> Runs(x.docs[i], len)])
        all == TLCEval(UNION Range1(runs))
        pairs(is) == \A i \in is : \A j \in is :
          (j < i /\ runs[i] # {} /\ runs[i] \cap runs[j] # {}) =>
             \E st \in sets : x.docs[i].id \in st /\ x.docs[j].id \in st
    IN IF Cardinality(all) > 100 THEN pairs(1..Len(x.docs))
       ELSE \A r \in all :        \* the same, for few runs that many documents have
              LET is == {i \in 1..Len(x.docs) : r \in runs[i]}
                  ids == {x.docs[i].id : i \in is}
              IN (\E st \in sets : ids \subseteq st) \/ Cardinality(is) = 1 \/ pairs(is)

Op(e) == E.e = e
Has(field) == field \in DOMAIN E

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ S!SInit

Cfg(c) == [k |-> c.k, m |-> c.m, n |-> c.n, w |-> c.w, fl |-> c.fl, s |-> c.s, tok |-> c.tok]

(* a cause outside the model (no file descriptors, say) may make an attempt
   fail; nothing else comes of it                                            *)
Injected == Has("inj")

Create == /\ Op("create")
          /\ Chk("create", IF Injected THEN E.ok => S!CanCreate(E.r, Cfg(E.c)) ELSE E.ok = S!CanCreate(E.r, Cfg(E.c)))
          /\ IF E.ok THEN S!Create(E.r, E.h, Cfg(E.c)) ELSE UNCHANGED svars

(* creation that cannot work for a reason outside the model: no parent       *)
CreateFails == /\ Op("createfails") /\ Chk("create", ~E.ok) /\ UNCHANGED svars

(* an attempt waits for the sessions in its way, it is not refused            *)
OpenW == /\ Op("openw")
         /\ Chk("openw", E.ok => (S!IsIndex(E.r) /\ S!MayWrite(E.r)))
         /\ Chk("openw", ~E.ok => (Injected \/ ~S!IsIndex(E.r)))
         /\ IF E.ok THEN S!OpenW(E.r, E.h) ELSE UNCHANGED svars

OpenR == /\ Op("openr")
         /\ Chk("openr", E.ok => (S!IsIndex(E.r) /\ S!MayRead(E.r)))
         /\ Chk("openr", ~E.ok => (Injected \/ ~S!IsIndex(E.r)))
         /\ IF E.ok THEN S!OpenR(E.r, E.h) ELSE UNCHANGED svars

Doc(d) == [id |-> d.id, ws |-> d.ws, c |-> d.c]
Add == /\ Op("add") /\ Chk("add", E.ok) /\ S!Add(E.h, [i \in 1..Len(E.docs) |-> Doc(E.docs[i])])
(* the same document, added again and again                                    *)
AddSame == /\ Op("addsame") /\ Chk("add", E.ok) /\ S!Add(E.h, TLCEval([i \in 1..E.n |-> Doc(E.doc)]))
Fill == /\ Op("fill") /\ Chk("add", E.ok) /\ S!AddEmpty(E.h, E.n, <<"fill">>)
FillPaths == /\ Op("fillpaths") /\ Chk("add", E.ok)
             /\ S!AddPaths(E.h, TLCEval([i \in 1..E.n |-> <<"many", ToString(E.i + i - 1)>>]))
CloseW == /\ Op("closew") /\ Chk("closew", E.ok) /\ S!CloseW(E.h)
CloseR == /\ Op("closer") /\ Chk("closer", E.ok) /\ S!CloseR(E.h)
RemoveW == /\ Op("removew") /\ Chk("removew", E.ok) /\ S!RemoveW(E.h)
RemoveR == /\ Op("remover") /\ Chk("remover", E.ok) /\ S!RemoveR(E.h)
Copy == Op("cp") /\ S!Copy(E.r, E.to)
Move == Op("mv") /\ S!Move(E.r, E.to)
MkDir == Op("mkdir") /\ S!MkDir(E.r)
Damage == Op("damage") /\ S!Damage(E.r)
Grow == Op("grow") /\ S!Grow(E.r, E.n)
Repair == Op("repair") /\ S!Repair(E.r)
(* an attempt to open a damaged index comes to an end, successful or not, and
   nothing remains of it.  What a session on it would find is left open.      *)
Probe == /\ Op("probe") /\ E.r \in DOMAIN disk /\ disk[E.r].st = "bad" /\ S!MayWrite(E.r)
         /\ UNCHANGED svars

(* the processes of some sessions died                                        *)
Die == /\ Op("die")
       /\ LET hs == Range1(E.hs) IN
            /\ wr' = [h \in DOMAIN wr \ hs |-> wr[h]]
            /\ rd' = [h \in DOMAIN rd \ hs |-> rd[h]]
            /\ qs' = [q \in {y \in DOMAIN qs : qs[y].h \notin hs} |-> qs[q]]
            /\ UNCHANGED disk
(* requests that were not answered for a long time: each has somebody in its way *)
Waiting == /\ Op("waiting")
           /\ Chk("blocked", \A i \in 1..Len(E.x) :
                 IF E.x[i].k = "openr" THEN ~S!MayRead(E.x[i].r) ELSE ~S!MayWrite(E.x[i].r))
           /\ UNCHANGED svars

(* --- reading ---------------------------------------------------------------- *)
X == rd[E.h].x

(* lookups: every element of q is [b, cap, d]                                *)
Get == /\ Op("get")
       /\ Chk("get", E.ok)
       /\ LET bad == {i \in 1..Len(E.q) : E.q[i].d # S!Lookup(X, E.q[i].b, E.q[i].cap)}
          IN Chk("get", bad = {} \/ ~PrintT(<<"DETAIL", tid, l, E.q[Min(bad)],
                              S!Lookup(X, E.q[Min(bad)].b, E.q[Min(bad)].cap)>>))
       /\ UNCHANGED svars

(* lookups of every fingerprint of the index's space: those with documents    *)
GetAll == /\ Op("getall")
          /\ Chk("get", E.ok)
          /\ Chk("get", /\ Len(E.q) = Cardinality(DOMAIN X.post)
                         /\ \A i \in 1..Len(E.q) : E.q[i].d = S!Lookup(X, E.q[i].b, -1))
          /\ Chk("passage", Meet(X, {Range1(E.q[i].d) : i \in {y \in 1..Len(E.q) : Len(E.q[y].d) > 1}}))
          /\ UNCHANGED svars

(* long results, as runs <<identity, how often>> of equal documents             *)
RunsOk(x, lst, r) ==
    LET to == TLCEval(FoldLeft(LAMBDA a, y : Append(a, a[Len(a)] + y[2]), <<0>>, r))
    IN /\ Len(lst) = to[Len(to)]
       /\ \A i \in 1..Len(r) : \A j \in (to[i] + 1)..to[i + 1] : x.docs[lst[j]].id = r[i][1]
GetRuns == /\ Op("getruns")
           /\ Chk("get", E.ok)
           /\ Chk("get", /\ Len(E.q) = Cardinality(DOMAIN X.post)
                          /\ \A i \in 1..Len(E.q) :
                                 LET f == Reduce(E.q[i].b, 30000)
                                 IN f \in DOMAIN X.post /\ RunsOk(X, X.post[f], E.q[i].r))
           /\ UNCHANGED svars
EnumRuns == /\ Op("enumruns")
            /\ LET p == TLCEval([i \in 1..Len(E.p) |-> [f |-> Reduce(E.p[i].b, 30000), r |-> E.p[i].r]])
               IN /\ Chk("enum", {p[i].f : i \in 1..Len(p)} = S!Dups(X) /\ Len(p) = Cardinality(S!Dups(X)))
                  /\ Chk("enum", \A i \in 1..Len(p) : RunsOk(X, X.post[p[i].f], p[i].r))
                  /\ Chk("enum", \A i \in 2..Len(p) : Len(X.post[p[i - 1].f]) >= Len(X.post[p[i].f]))
            /\ Chk("enumend", E.err = "EOF" /\ \A i \in 1..Len(E.after) : E.after[i] = "0 EOF")
            /\ UNCHANGED svars

(* a whole enumeration, in pieces of at most cap documents                   *)
Pieces == [i \in 1..Len(E.p) |-> [f |-> Reduce(E.p[i].b, 30000), d |-> E.p[i].d]]
(* fold: [s |-> cursor, ok |-> every piece was right]                         *)
EnumFold(x, p) ==
    FoldLeft(LAMBDA a, pc :
               IF ~a.ok THEN a
               ELSE IF pc.f \notin S!Dups(x) THEN [a EXCEPT !.ok = FALSE]
               ELSE LET from == IF a.s.cur = pc.f THEN a.s.pos ELSE 0
                        num == Len(pc.d)
                    IN IF /\ num >= 1
                          /\ from + num <= Len(x.post[pc.f])
                          /\ pc.d = S!Ids(x, SubSeq(x.post[pc.f], from + 1, from + num))
                          /\ from = 0 => pc.f \notin a.s.done
                          /\ from = 0 => (a.s.cur = NoFp \/ (a.s.pos = Len(x.post[a.s.cur])
                                              /\ Len(x.post[a.s.cur]) >= Len(x.post[pc.f])))
                       THEN [s |-> S!Delivered(a.s, x, pc.f, num), ok |-> TRUE]
                       ELSE [a EXCEPT !.ok = FALSE],
             [s |-> [cur |-> NoFp, pos |-> 0, done |-> {}], ok |-> TRUE], p)
Enum == /\ Op("enum")
        /\ LET r == EnumFold(X, Pieces)
           IN /\ Chk("enum", r.ok)
              /\ Chk("enum", Cardinality(S!Dups(X)) = Cardinality(r.s.done) + (IF r.s.cur = NoFp THEN 0 ELSE 1))
              /\ Chk("enum", r.s.cur # NoFp => r.s.pos = Len(X.post[r.s.cur]))
        /\ E.cap >= 0 => Chk("enum", \A i \in 1..Len(E.p) : Len(E.p[i].d) <= E.cap)
        /\ Chk("enumend", E.err = "EOF")
        /\ Chk("enumend", \A i \in 1..Len(E.after) : E.after[i] = "0 EOF")
        /\ Chk("passage", LET ps == TLCEval(Pieces)
                              fs == {ps[g].f : g \in 1..Len(ps)}
                          IN Meet(X, IF Cardinality(fs) = Len(ps) THEN {Range1(ps[g].d) : g \in 1..Len(ps)}
                                     ELSE {UNION {Range1(ps[g].d) : g \in {y \in 1..Len(ps) : ps[y].f = f}} : f \in fs}))
        /\ UNCHANGED svars

QStart == Op("qstart") /\ S!QStart(E.q, E.h)

(* one call of Next: pieces for the first n of the given result buffers      *)
QNext == /\ Op("qnext")
         /\ LET q == E.q  s == qs[q]  x == rd[s.h].x
                r == FoldLeft(LAMBDA a, pc :
                        IF ~a.ok \/ pc.f \notin S!Dups(x) \/ ~S!PieceOk(a.s, x, pc.f, Len(pc.d)) THEN [a EXCEPT !.ok = FALSE]
                        ELSE LET from == IF a.s.cur = pc.f THEN a.s.pos ELSE 0
                             IN IF pc.d = S!Ids(x, SubSeq(x.post[pc.f], from + 1, from + Len(pc.d)))
                                THEN [a EXCEPT !.s = S!Delivered(a.s, x, pc.f, Len(pc.d))]
                                ELSE [a EXCEPT !.ok = FALSE],
                        [s |-> s, ok |-> TRUE], Pieces)
            IN /\ Chk("enum", r.ok)
               /\ Chk("enum", E.n = Len(E.p) /\ E.n <= Len(E.caps))
               /\ Chk("enum", \A i \in 1..E.n : E.caps[i] < 0 \/ Len(E.p[i].d) <= E.caps[i])
               /\ Chk("enum", Has("stale") => E.stale = 0)
               /\ Chk("enumend", E.err \in {"", "EOF"})
               /\ Chk("enumend", (E.err = "EOF" \/ (E.n = 0 /\ Len(E.caps) > 0)) => (E.err = "EOF" /\ S!AtEnd(r.s, x)))
               /\ qs' = [qs EXCEPT ![q] = r.s]
         /\ UNCHANGED <<disk, wr, rd>>

(* statistics; sums of lengths and of squares are exact integers, the mean and
   the deviation are given as fixed-point integers with rounding slack       *)
(* the numbers of event E are the statistics of content x                      *)
StatsOf(x) ==
    /\ Chk("statsdocs", E.docs = x.n)
    /\ Chk("stats", E.posts = S!SumLen(x))
    /\ Chk("stats", E.blots = S!Space(x))
    /\ Chk("statspaths", E.paths = Cardinality(x.nodes) + 1)
    /\ E.sig => (* few enough posts for TLC's integers *)
       LET B == S!Space(x) p1 == S!SumLen(x) p2 == S!SumLen2(x)
           (* mean * 2^20: p1 * 2^20 / B = p1 * 16 / n *)
           m20 == (p1 * 16) \div x.c.n
           (* variance * B * sc *)
           sg == E.sc * p2 - (E.sc * p1 * p1) \div B
       IN /\ Chk("stats", E.mean20 - m20 \in -2..2)
          /\ Chk("stats", E.sig2b - sg \in -3..3)
Stats == Op("stats") /\ Chk("stats", E.ok) /\ StatsOf(X) /\ UNCHANGED svars

Info == /\ Op("info")
        /\ Chk("info", /\ E.nsh = X.c.n /\ E.seqlen = X.c.s /\ E.nw = X.c.w
                       /\ E.bk = X.c.k /\ E.bm = X.c.m /\ E.il = X.c.m)
        /\ Chk("root", E.root = E.wantroot)
        /\ UNCHANGED svars
ReadCfg == /\ Op("readcfg")
           /\ Chk("readcfg", E.ok)
           /\ LET c == disk[E.r].x.c IN
                Chk("readcfg", /\ E.nsh = c.n /\ E.seqlen = c.s /\ E.nw = c.w /\ E.fl = c.fl
                               /\ E.bk = c.k /\ E.bm = c.m /\ E.tok = c.tok)
           /\ UNCHANGED svars
(* the fingerprints computed for a query text                                *)
BlotDoc == /\ Op("blotdoc")
           /\ Chk("blotdoc", \A i \in 1..Len(E.x) :
                    E.x[i].b = Fps(Hashes(E.x[i].ws, WordHash), X.c.k, X.c.m))
           /\ UNCHANGED svars
(* where a fingerprint occurs in a text: at the words whose window has it      *)
Locate == /\ Op("locate")
          /\ Chk("locate", \A i \in 1..Len(E.x) :
                LET y == E.x[i]
                    K == X.c.k * X.c.m
                    ff == TLCEval(Fps(Hashes(y.ws, WordHash), X.c.k, X.c.m))
                    f == [j \in DOMAIN ff |-> Reduce(ff[j], X.c.n)]
                    where == {j + K : j \in {g \in DOMAIN f : f[g] = Reduce(y.b, X.c.n)}}
                IN IF y.found THEN y.at \in where ELSE where = {})
          /\ UNCHANGED svars
(* the same in bytes: a document has its words ws and where each is (sp, first
   byte and the one after the last, within the file).  Locating gives the range
   of K+1 consecutive words the last of which has the fingerprint.            *)
LocateIn ==
    /\ Op("locatein")
    /\ LET K == X.c.k * X.c.m
           f == TLCEval([d \in 1..Len(E.docs) |->
                    LET ff == Fps(Hashes(E.docs[d].ws, WordHash), X.c.k, X.c.m)
                    IN [j \in DOMAIN ff |-> Reduce(ff[j], X.c.n)]])
           good(y) == LET b == Reduce(y.b, X.c.n)
                          at == {j \in DOMAIN f[y.d] : f[y.d][j] = b}
                      IN IF y.found
                         THEN \E j \in at : y.s = E.docs[y.d].sp[j][1] /\ y.e = E.docs[y.d].sp[j + K][2]
                         ELSE at = {}
           bad == {i \in 1..Len(E.x) : ~good(E.x[i])}
       IN Chk("locate", bad = {} \/ ~PrintT(<<"DETAIL", tid, l, E.x[Min(bad)]>>))
    /\ UNCHANGED svars
(* searching documents for passages: win[j] is the text of the K+1 words ending
   in word j+K                                                               *)
Passages ==
    /\ Op("passages")
    /\ LET f == TLCEval([d \in 1..Len(E.docs) |->
                    LET ff == Fps(Hashes(E.docs[d].ws, WordHash), X.c.k, X.c.m)
                    IN [j \in DOMAIN ff |-> Reduce(ff[j], X.c.n)]])
           occurs(d, p) == \E j \in DOMAIN f[d] : f[d][j] = Reduce(p.b, X.c.n) /\ E.docs[d].win[j] = p.t
           good(y) == /\ y.err = ""
                      /\ {<<y.r[i].b, y.r[i].t>> : i \in 1..Len(y.r)}
                           = {<<y.m[i].b, y.m[i].t>> : i \in {z \in 1..Len(y.m) : occurs(y.d, y.m[z])}}
           bad == {i \in 1..Len(E.x) : ~good(E.x[i])}
       IN Chk("passages", bad = {} \/ ~PrintT(<<"DETAIL", tid, l, E.x[Min(bad)]>>))
    /\ UNCHANGED svars
Split == /\ Op("split")
         /\ Chk("split", \A i \in 1..Len(E.x) :
                LET y == E.x[i] IN
                /\ y.sh = Shard(y.b, X.c.n) /\ y.sl = Slot(y.b, X.c.n)
                /\ Reduce(y.j, 30000) = Reduce(y.b, X.c.n))
         /\ UNCHANGED svars

(* what exists at some paths: exactly the roots of the specification          *)
Exists == /\ Op("exists")
          /\ Chk("exists", \A i \in 1..Len(E.x) : E.x[i].there = (E.x[i].r \in DOMAIN disk))
          /\ UNCHANGED svars
(* a comparison made elsewhere                                                *)
Fact == /\ Op("fact") /\ Chk(E.kind, E.holds) /\ UNCHANGED svars
(* what was recorded earlier, and what is observed now                        *)
Same == /\ Op("same") /\ Chk(E.kind, E.was = E.now) /\ UNCHANGED svars

(* operations that never returned or took the process down are no step        *)
Stuck == /\ E.e \in {"hang", "panic"}
         /\ PrintT(<<"MISMATCH", tid, l, E.e>>) /\ FALSE
         /\ UNCHANGED svars

Step == \/ Create \/ CreateFails \/ OpenW \/ OpenR \/ Add \/ AddSame \/ Fill \/ FillPaths \/ CloseW \/ CloseR \/ RemoveW \/ RemoveR
        \/ Copy \/ Move \/ MkDir \/ Damage \/ Repair \/ Grow \/ Probe \/ Die \/ Waiting
        \/ Get \/ GetAll \/ GetRuns \/ Enum \/ EnumRuns \/ QStart \/ QNext \/ Stats \/ Info \/ ReadCfg \/ BlotDoc \/ Locate \/ LocateIn \/ Passages \/ Split \/ Exists \/ Fact \/ Same \/ Stuck

TraceNext == /\ l <= Len(T)
             /\ Step
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l = Len(T)) => PrintT(<<"ACCEPTED", tid>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, svars>>

TraceOk == S!Exclusion
=============================================================================
