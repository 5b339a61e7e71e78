-------------------------------- MODULE Dupi --------------------------------
(* The index service as its users see it: index directories, writing and
   reading sessions, lookups, enumerations, statistics.

   disk  root -> what is at that path:
           [st |-> "idx", x |-> content]  an index
           [st |-> "dir"]                 a directory that is not a usable
                                          index (also: one that is just being
                                          created)
           [st |-> "bad", x |-> content]  an index some file of which is
                                          missing or damaged
         a root not in DOMAIN disk does not exist.
   wr    writing session -> root, content including what it added
   rd    reading session -> root, content as committed when it was opened
   qs    enumeration -> session, the fingerprint being delivered (or None),
         how much of its list was delivered, the fingerprints completed

   A content is [c, docs, n, post, nodes]: configuration, the documents that
   can have fingerprints, the number of all documents, the posting lists and
   the nodes of the path tree.                                              *)
EXTENDS DupiCore

CONSTANTS H,        \* word -> hash
          None

VARIABLES disk, wr, rd, qs
svars == <<disk, wr, rd, qs>>

Empty == [x \in {} |-> 0]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

SInit == disk = Empty /\ wr = Empty /\ rd = Empty /\ qs = Empty

Content(c) == [c |-> c, docs |-> <<>>, n |-> 0, post |-> Empty, nodes |-> {}]

Writers(r) == {h \in DOMAIN wr : wr[h].root = r}
Readers(r) == {h \in DOMAIN rd : rd[h].root = r}

(* --- sessions -------------------------------------------------------------- *)
MayWrite(r) == Writers(r) = {} /\ Readers(r) = {}
MayRead(r)  == Writers(r) = {}

CanCreate(r, c) == MayWrite(r) /\ ValidCfg(c) /\ r \notin DOMAIN disk
Create(r, h, c) ==
    /\ CanCreate(r, c) /\ h \notin DOMAIN wr
    /\ disk' = With(disk, r, [st |-> "dir"])
    /\ wr' = With(wr, h, [root |-> r, x |-> Content(c)])
    /\ UNCHANGED <<rd, qs>>

IsIndex(r) == r \in DOMAIN disk /\ disk[r].st = "idx"

OpenW(r, h) ==
    /\ MayWrite(r) /\ IsIndex(r) /\ h \notin DOMAIN wr
    /\ wr' = With(wr, h, [root |-> r, x |-> disk[r].x])
    /\ UNCHANGED <<disk, rd, qs>>

OpenR(r, h) ==
    /\ MayRead(r) /\ IsIndex(r) /\ h \notin DOMAIN rd
    /\ rd' = With(rd, h, [root |-> r, x |-> disk[r].x])
    /\ UNCHANGED <<disk, wr, qs>>

Extended(x, ds) ==
    [x EXCEPT !.docs = @ \o ds, !.n = @ + Len(ds),
              !.nodes = @ \cup UNION {PathNodes(ds[i].c) : i \in 1..Len(ds)}]

Add(h, ds) ==
    /\ h \in DOMAIN wr
    /\ wr' = [wr EXCEPT ![h].x = Extended(@, ds)]
    /\ UNCHANGED <<disk, rd, qs>>

(* num documents without any fingerprint at one path *)
AddEmpty(h, num, p) ==
    /\ h \in DOMAIN wr
    /\ wr' = [wr EXCEPT ![h].x.n = @ + num, ![h].x.nodes = @ \cup (IF num > 0 THEN PathNodes(p) ELSE {})]
    /\ UNCHANGED <<disk, rd, qs>>

(* the same, each at a path of its own *)
AddPaths(h, ps) ==
    /\ h \in DOMAIN wr
    /\ wr' = [wr EXCEPT ![h].x.n = @ + Len(ps), ![h].x.nodes = @ \cup UNION {PathNodes(ps[i]) : i \in 1..Len(ps)}]
    /\ UNCHANGED <<disk, rd, qs>>

(* What a content gets when its session is closed: the posting lists of what
   was there before, extended by the new documents.  base is the number of
   documents whose postings are known.                                      *)
Committed(x, base) == [x EXCEPT !.post = PostingsMore(@, x.docs, base + 1, x.c, H)]

BaseDocs(r) == IF IsIndex(r) THEN Len(disk[r].x.docs) ELSE 0

CloseW(h) ==
    /\ h \in DOMAIN wr
    /\ LET r == wr[h].root
       IN disk' = With(disk, r, [st |-> "idx", x |-> Committed(wr[h].x, BaseDocs(r))])
    /\ wr' = Without(wr, h)
    /\ UNCHANGED <<rd, qs>>

CloseR(h) ==
    /\ h \in DOMAIN rd
    /\ rd' = Without(rd, h)
    /\ qs' = [q \in {y \in DOMAIN qs : qs[y].h # h} |-> qs[q]]
    /\ UNCHANGED <<disk, wr>>

RemoveW(h) ==
    /\ h \in DOMAIN wr
    /\ disk' = Without(disk, wr[h].root)
    /\ wr' = Without(wr, h)
    /\ UNCHANGED <<rd, qs>>

RemoveR(h) ==
    /\ h \in DOMAIN rd
    /\ disk' = Without(disk, rd[h].root)
    /\ rd' = Without(rd, h)
    /\ qs' = [q \in {y \in DOMAIN qs : qs[y].h # h} |-> qs[q]]
    /\ UNCHANGED wr

(* --- the surroundings ------------------------------------------------------ *)
Copy(r, to) ==
    /\ r \in DOMAIN disk /\ to \notin DOMAIN disk /\ Writers(r) = {}
    /\ disk' = With(disk, to, disk[r])
    /\ UNCHANGED <<wr, rd, qs>>

Move(r, to) ==
    /\ r \in DOMAIN disk /\ to \notin DOMAIN disk /\ MayWrite(r)
    /\ disk' = With(Without(disk, r), to, disk[r])
    /\ UNCHANGED <<wr, rd, qs>>

MkDir(r) ==
    /\ r \notin DOMAIN disk
    /\ disk' = With(disk, r, [st |-> "dir"])
    /\ UNCHANGED <<wr, rd, qs>>

Damage(r) ==
    /\ IsIndex(r) /\ MayWrite(r)
    /\ disk' = [disk EXCEPT ![r].st = "bad"]
    /\ UNCHANGED <<wr, rd, qs>>

Repair(r) ==
    /\ r \in DOMAIN disk /\ disk[r].st = "bad" /\ MayWrite(r)
    /\ disk' = [disk EXCEPT ![r].st = "idx"]
    /\ UNCHANGED <<wr, rd, qs>>

(* The files of an index grow between sessions by space that no list refers to
   and by num documents at the root that have no fingerprint: what sessions
   that died, or very many documents, leave.                                 *)
Grow(r, num) ==
    /\ IsIndex(r) /\ MayWrite(r)
    /\ disk' = [disk EXCEPT ![r].x.n = @ + num]
    /\ UNCHANGED <<wr, rd, qs>>

(* --- reading ---------------------------------------------------------------- *)
Ids(x, lst) == [i \in 1..Len(lst) |-> x.docs[lst[i]].id]

(* Looking fingerprint f (any 32-bit value) up with room for cap documents;
   cap < 0: no limit.                                                        *)
Lookup(x, f, cap) ==
    LET l == ListOf(x.post, Reduce(f, x.c.n))
    IN Ids(x, IF cap < 0 \/ cap >= Len(l) THEN l ELSE SubSeq(l, 1, cap))

Dups(x) == {f \in DOMAIN x.post : Len(x.post[f]) >= 2}
LongestOf(x, fs) == {f \in fs : \A g \in fs : Len(x.post[g]) <= Len(x.post[f])}

QStart(q, h) ==
    /\ h \in DOMAIN rd
    /\ qs' = With(qs, q, [h |-> h, cur |-> None, pos |-> 0, done |-> {}])
    /\ UNCHANGED <<disk, wr, rd>>

(* An enumeration delivers pieces: a piece continues the list of the current
   fingerprint or, if that is complete, begins one of the longest lists that
   were not delivered.                                                       *)
Rest(s, x) == IF s.cur = None \/ s.pos = Len(x.post[s.cur])
              THEN (Dups(x) \ s.done) \ {s.cur} ELSE {}
MayDeliver(s, x, f) == IF s.cur # None /\ s.pos < Len(x.post[s.cur])
                       THEN f = s.cur
                       ELSE f \in LongestOf(x, Rest(s, x))
AtEnd(s, x) == /\ (s.cur = None \/ s.pos = Len(x.post[s.cur]))
               /\ Rest(s, x) = {}

Delivered(s, x, f, num) ==
    IF s.cur = f THEN [s EXCEPT !.pos = @ + num]
    ELSE [s EXCEPT !.cur = f, !.pos = num,
                   !.done = @ \cup (IF s.cur = None THEN {} ELSE {s.cur})]

(* one piece of num >= 1 documents of f *)
PieceOk(s, x, f, num) == /\ num >= 1 /\ MayDeliver(s, x, f)
                         /\ num <= Len(x.post[f]) - (IF s.cur = f THEN s.pos ELSE 0)
Deliver(q, f, num) ==
    /\ q \in DOMAIN qs /\ qs[q].h \in DOMAIN rd
    /\ LET x == rd[qs[q].h].x IN
         /\ PieceOk(qs[q], x, f, num)
         /\ qs' = [qs EXCEPT ![q] = Delivered(@, x, f, num)]
    /\ UNCHANGED <<disk, wr, rd>>

(* statistics; sums over the posting lists *)
SumLen(x)  == FoldFunction(LAMBDA l, s : s + Len(l), 0, x.post)
SumLen2(x) == FoldFunction(LAMBDA l, s : s + Len(l) * Len(l), 0, x.post)
Space(x)   == x.c.n * 65536

(* --- properties of the service ---------------------------------------------- *)
Exclusion == \A h \in DOMAIN wr :
                /\ Readers(wr[h].root) = {}
                /\ Writers(wr[h].root) = {h}

(* P02: a list has exactly the documents with the fingerprint, in order.      *)
PostExactOf(x) ==
    /\ \A i \in 1..Len(x.docs) : \A f \in DocFps(x.docs[i], x.c, H) :
          f \in DOMAIN x.post /\ \E j \in 1..Len(x.post[f]) : x.post[f][j] = i
    /\ \A f \in DOMAIN x.post : /\ \A j \in 1..Len(x.post[f]) : f \in DocFps(x.docs[x.post[f][j]], x.c, H)
                                /\ \A j \in 1..(Len(x.post[f]) - 1) : x.post[f][j] < x.post[f][j+1]

(* P01 *)
SharedPassageOf(x) ==
    \A i, j \in 1..Len(x.docs) :
        (i < j /\ SharePassage(x.docs[i], x.docs[j], x.c.k * x.c.m + 1))
            => \E f \in DOMAIN x.post : {i, j} \subseteq Range1(x.post[f])

(* P03 *)
LikeRebuilt(x) == x.post = Postings(x.docs, x.c, H)

IndexOk(x) == PostExactOf(x) /\ SharedPassageOf(x) /\ LikeRebuilt(x) /\ x.n >= Len(x.docs)
AllIndexesOk == \A r \in DOMAIN disk : disk[r].st = "idx" => IndexOk(disk[r].x)

(* P06: what an enumeration has delivered is a correct beginning.             *)
EnumOk == \A q \in DOMAIN qs :
    qs[q].h \in DOMAIN rd =>
      LET s == qs[q] x == rd[qs[q].h].x IN
        /\ s.done \subseteq Dups(x)
        /\ s.cur # None => /\ s.cur \in Dups(x) \ s.done
                           /\ \A f \in s.done : Len(x.post[f]) >= Len(x.post[s.cur])
        /\ AtEnd(s, x) => Dups(x) = s.done \cup (IF s.cur = None THEN {} ELSE {s.cur})

(* a reader's view does not change while it is open *)
Snapshot == [][\A h \in DOMAIN rd \cap DOMAIN rd' : rd'[h] = rd[h]]_svars
(* committed documents are never lost or reordered by a session *)
Prefixed == [][\A r \in DOMAIN disk \cap DOMAIN disk' :
                 (disk[r].st = "idx" /\ disk'[r].st = "idx") => IsPrefix(disk[r].x.docs, disk'[r].x.docs)]_svars
=============================================================================
