----------------------------- MODULE CrashTrace -----------------------------
(* Traces of histories in which processes die, or file operations fail, in the
   middle of writing sessions.  On top of DupiTrace:

     disk[r].st = "torn"   the session that creates the index ended before it
                           was closed: every attempt to open it either fails or
                           finds all documents that were added
     doubt[r]              positions of documents that may, but need not, be
                           found: those of a session that did not end well
     bad                   writing sessions in which an operation has failed  *)
EXTENDS DupiTrace

VARIABLES doubt, bad
cvars == <<disk, wr, rd, qs, doubt, bad>>

CInit == TraceInit /\ doubt = S!Empty /\ bad = {}

Doubt(r) == IF r \in DOMAIN doubt THEN doubt[r] ELSE {}
Put(f, k, v) == S!With(f, k, v)
Torn(r) == r \in DOMAIN disk /\ disk[r].st = "torn"
DocsOf(s) == [i \in 1..Len(s) |-> Doc(s[i])]
Opening == E.e \in {"openw", "openr"}

(* A session that did not end well: of an index that is appended to, its
   documents may be found.  If one that is being created can be opened at all,
   all documents are found, except those pending; after an error that was
   reported any may be missing.                                               *)
Ended(h, pending, told) ==
    LET r == wr[h].root
        app == S!IsIndex(r)
        base == S!BaseDocs(r)
        x == S!Extended(wr[h].x, DocsOf(pending))
        from == IF app \/ told THEN base ELSE Len(wr[h].x.docs)
    IN /\ disk' = Put(disk, r, [st |-> IF app THEN "idx" ELSE "torn", x |-> S!Committed(x, base)])
       /\ doubt' = Put(doubt, r, Doubt(r) \cup {i \in (from + 1)..Len(x.docs) : TRUE})
       /\ wr' = S!Without(wr, h) /\ bad' = bad \ {h}
       /\ UNCHANGED <<rd, qs>>

(* the process died; during an add of the pending documents, maybe            *)
XCrash == /\ Op("crash") /\ E.h \in DOMAIN wr /\ Ended(E.h, E.pending, FALSE)
(* it died while creating or opening                                          *)
XCrashOpen ==
    /\ Op("crashopen")
    /\ IF E.create /\ E.r \notin DOMAIN disk
       THEN disk' = Put(disk, E.r, [st |-> "torn", x |-> S!Content(Cfg(E.c))])
       ELSE UNCHANGED disk
    /\ UNCHANGED <<wr, rd, qs, doubt, bad>>

(* creating or opening may fail when an operation failed                      *)
XCreate == /\ Op("create")
           /\ Chk("create", (~Injected \/ E.inj = 0 \/ E.ok) => E.ok = S!CanCreate(E.r, Cfg(E.c)))
           /\ IF E.ok THEN S!Create(E.r, E.h, Cfg(E.c)) /\ UNCHANGED <<doubt, bad>>
              ELSE IF S!CanCreate(E.r, Cfg(E.c))
              THEN disk' = Put(disk, E.r, [st |-> "torn", x |-> S!Content(Cfg(E.c))]) /\ UNCHANGED <<wr, rd, qs, doubt, bad>>
              ELSE UNCHANGED cvars

XOpen ==
    /\ Opening
    /\ LET may == IF E.e = "openw" THEN S!MayWrite(E.r) ELSE S!MayRead(E.r)
           x == disk[E.r].x
       IN /\ Chk(E.e, E.ok => (may /\ (S!IsIndex(E.r) \/ Torn(E.r))))
          /\ Chk(E.e, ~E.ok => (~S!IsIndex(E.r) \/ (Injected /\ E.inj > 0)))
          /\ IF ~E.ok THEN UNCHANGED cvars
             ELSE /\ disk' = [disk EXCEPT ![E.r].st = "idx"]
                  /\ IF E.e = "openw"
                     THEN wr' = Put(wr, E.h, [root |-> E.r, x |-> x]) /\ UNCHANGED rd
                     ELSE rd' = Put(rd, E.h, [root |-> E.r, x |-> x]) /\ UNCHANGED wr
                  /\ UNCHANGED <<qs, doubt, bad>>

XAdd == /\ Op("add")
        /\ Chk("add", E.ok \/ (Injected /\ E.inj > 0))
        /\ S!Add(E.h, DocsOf(E.docs))
        /\ bad' = IF E.ok THEN bad ELSE bad \cup {E.h}
        /\ UNCHANGED doubt

(* closing succeeds, unless an operation failed; when the failing operations
   kept failing somebody must have been told                                  *)
XClose ==
    /\ Op("closew")
    /\ Chk("closew", E.ok \/ (Injected /\ E.inj > 0))
    /\ Chk("silent", (Injected /\ E.persist /\ E.inj > 0) => (~E.ok \/ E.h \in bad))
    /\ IF E.ok /\ E.h \notin bad
       THEN S!CloseW(E.h) /\ UNCHANGED <<doubt, bad>>
       ELSE Ended(E.h, <<>>, TRUE)

(* --- reading with documents in doubt ------------------------------------------ *)
Un == Doubt(rd[E.h].root)
(* out is the list lst, without some of those in doubt                         *)
Agrees(out, lst) ==
    LET ids == S!Ids(X, lst)
        o == Range1(out)
    IN /\ out = SelectSeq(ids, LAMBDA v : v \in o)
       /\ \A i \in 1..Len(lst) : lst[i] \notin Un => ids[i] \in o

XGetAll ==
    /\ Op("getall")
    /\ Chk("get", E.ok)
    /\ LET fp == TLCEval([i \in 1..Len(E.q) |-> Reduce(E.q[i].b, 30000)])
           fs == TLCEval(Range1(fp))
       IN /\ Chk("get", Cardinality(fs) = Len(fp) /\ fs \subseteq DOMAIN X.post)
          /\ Chk("get", \A i \in 1..Len(fp) : Agrees(E.q[i].d, X.post[fp[i]]))
          /\ Chk("get", \A f \in DOMAIN X.post \ fs : Range1(X.post[f]) \subseteq Un)
    /\ UNCHANGED cvars

XEnum ==
    /\ Op("enum")
    /\ IF Un = {} THEN Enum /\ UNCHANGED <<doubt, bad>>
       ELSE /\ Chk("enum", \A i \in 1..Len(Pieces) : /\ Pieces[i].f \in S!Dups(X)
                                                     /\ Agrees(Pieces[i].d, X.post[Pieces[i].f])
                                                     /\ i > 1 => Len(Pieces[i-1].d) >= Len(Pieces[i].d))
            /\ Chk("enum", {f \in S!Dups(X) : Cardinality(Range1(X.post[f]) \ Un) >= 2}
                             \subseteq {Pieces[i].f : i \in 1..Len(Pieces)})
            /\ Chk("enum", Cardinality({Pieces[i].f : i \in 1..Len(Pieces)}) = Len(Pieces))
            /\ Chk("enumend", E.err = "EOF")
            /\ UNCHANGED cvars

CStep == \/ XCrash \/ XCrashOpen \/ XCreate \/ XOpen \/ XAdd \/ XClose \/ XGetAll \/ XEnum
         \/ (E.e \in {"closer", "stats", "hang", "panic", "fact", "get", "exists"} /\ Step /\ UNCHANGED <<doubt, bad>>)
CNext == /\ l <= Len(T)
         /\ CStep
         /\ l' = l + 1 /\ UNCHANGED tid
         /\ (l = Len(T)) => PrintT(<<"ACCEPTED", tid>>)
CSpec == CInit /\ [][CNext]_<<tid, l, cvars>>
=============================================================================
