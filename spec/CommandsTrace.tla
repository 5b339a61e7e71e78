--------------------------- MODULE CommandsTrace ---------------------------
(* Traces that also contain executions of the commands of the program; what a
   command has to do is in Commands.  The file has in addition
     corp  sequence of corpora: sequences of documents [id, ws, win], win the
           texts of their windows                                            *)
EXTENDS DupiTrace
C == INSTANCE Commands
Corp(n) == File.corp[n]

Serves(r) == S!IsIndex(r) /\ S!MayRead(r)
Y == disk[E.r].x

(* index: args were given, tree is what is there; odd: and also what is neither
   a file nor a directory, which is not indexed.  Whether the command says so
   is left open, but it comes to an end.                                      *)
XIndex ==
    /\ Op("xindex")
    /\ LET t == E.tree
           can == IF E.create THEN S!CanCreate(E.r, Cfg(E.c)) ELSE S!IsIndex(E.r) /\ S!MayWrite(E.r)
           docs == FlattenSeq([a \in 1..Len(E.args) |->
                       LET w == TLCEval(C!Taken(t, E.args[a])) IN [i \in 1..Len(w) |-> Doc(t[w[i]].doc)]])
           fails == \E a \in 1..Len(E.args) : C!WalkFails(t, E.args[a])
           unread == UNION {C!Unread(t, E.args[a]) : a \in 1..Len(E.args)}
           base == IF E.create THEN S!Content(Cfg(E.c)) ELSE disk[E.r].x
       IN IF ~can
          THEN Chk("index", E.rc # 0) /\ UNCHANGED svars
          ELSE /\ Chk("index", /\ fails => E.rc # 0
                               /\ E.rc # 0 => (fails \/ E.odd))
               /\ Chk("reported", /\ \A i \in unread : t[i].reported
                                  /\ \A a \in 1..Len(E.args) : C!Exists(t, E.args[a]) \/ E.args[a].reported)
               /\ disk' = S!With(disk, E.r, [st |-> "idx", x |-> S!Committed(S!Extended(base, TLCEval(docs)), Len(base.docs))])
               /\ UNCHANGED <<wr, rd, qs>>

Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ (a = b \/ \A v \in Range1(a) \cup Range1(b) : Count(a, v) = Count(b, v))
(* all lookups; the order in which the command adds documents is not fixed    *)
GetBag == /\ Op("getbag")
          /\ Chk("get", /\ E.ok /\ Len(E.q) = Cardinality(DOMAIN X.post)
                         /\ \A i \in 1..Len(E.q) : SameBag(E.q[i].d, S!Lookup(X, E.q[i].b, -1)))
          /\ UNCHANGED svars

(* commands that read need an index                                           *)
Refused == /\ E.e \in {"xextract", "xlike", "xblot", "xunblot", "xinspect"} /\ ~Serves(E.r)
           /\ Chk("rc", E.rc # 0) /\ UNCHANGED svars

(* extract: p is what was printed, in order: [b, d], with mode "b" no d       *)
XExtract ==
    /\ Op("xextract") /\ Serves(E.r)
    /\ LET B == S!Space(Y)
           p1 == S!SumLen(Y)
           p2 == S!SumLen2(Y)
           lens == {Len(Y.post[f]) : f \in S!Dups(Y)}
           q == TLCEval([n \in lens |-> C!Qualifies(B, p1, p2, n, E.sigma)])
           fs == TLCEval([i \in 1..Len(E.p) |-> Reduce(E.p[i].b, 30000)])
           printed == Range1(fs)
       IN /\ Chk("rc", E.rc = 0)
          /\ Chk("extract", Cardinality(printed) = Len(fs))
          /\ Chk("extract", \A f \in printed : f \in S!Dups(Y) /\ q[Len(Y.post[f])] # "no")
          /\ Chk("extract", \A f \in S!Dups(Y) : q[Len(Y.post[f])] = "yes" => f \in printed)
          /\ Chk("extract", \A i \in 2..Len(fs) : Len(Y.post[fs[i-1]]) >= Len(Y.post[fs[i]]))
          /\ E.mode # "b" => Chk("extract", \A i \in 1..Len(fs) : SameBag(E.p[i].d, S!Ids(Y, Y.post[fs[i]])))
    /\ UNCHANGED svars

(* inspect: the statistics; as text, mean and deviation are rounded to
   hundredths: m100, s100                                                     *)
XInspect ==
    /\ Op("xinspect") /\ Serves(E.r)
    /\ Chk("rc", E.rc = 0)
    /\ Chk("stats", E.root = E.wantroot)
    /\ StatsOf(Y)
    /\ E.m100 >= 0 =>
         LET B == S!Space(Y) p1 == S!SumLen(Y) p2 == S!SumLen2(Y)
             var == p2 - (p1 * p1) \div B        \* variance * B
             small == p1 < 40000 /\ p2 < 50000 /\ E.m100 < 100 /\ E.s100 < 20
         IN small => /\ Chk("stats", 2 * (100 * p1 - E.m100 * B) \in (-B - 2)..(B + 2))
                     /\ Chk("stats", /\ (2 * E.s100 + 1) * (2 * E.s100 + 1) * B >= 40000 * (var - 1)
                                     /\ E.s100 = 0 \/ (2 * E.s100 - 1) * (2 * E.s100 - 1) * B <= 40000 * (var + 1))
    /\ UNCHANGED svars

XLike ==
    /\ Op("xlike") /\ Serves(E.r)
    /\ Chk("rc", E.rc = 0 /\ Len(E.out) = Len(E.files))
    /\ LET docs == Corp(E.corp)
           good(i) == LET want == {docs[d].id : d \in {y \in 1..Len(docs) : C!Alike(E.files[i], docs[y])}}
                      IN Range1(E.out[i]) = want /\ Cardinality(want) = Len(E.out[i])
           bad == {i \in 1..Len(E.files) : ~good(i)}
       IN Chk("like", bad = {} \/ ~PrintT(<<"DETAIL", tid, l, Min(bad)>>))
    /\ UNCHANGED svars

XBlot ==
    /\ Op("xblot") /\ Serves(E.r)
    /\ Chk("rc", E.rc = 0)
    /\ LET K == Y.c.k * Y.c.m
           one(d) == LET f == Fps(Hashes(d.ws, WordHash), Y.c.k, Y.c.m)
                     IN [j \in DOMAIN f |-> [b |-> Reduce(f[j], Y.c.n), s |-> IF E.offsets THEN d.sp[j][1] ELSE -1,
                                             e |-> IF E.offsets THEN d.sp[j + K][2] ELSE -1]]
           want == FlattenSeq([i \in 1..Len(E.files) |-> one(E.files[i])])
       IN Chk("blot", want = [i \in 1..Len(E.out) |-> [b |-> Reduce(E.out[i].b, 30000), s |-> E.out[i].s, e |-> E.out[i].e]])
    /\ UNCHANGED svars

(* unblot: what was printed for the fingerprints of bs, one after the other:
   groups [t, ds].  Some division of the groups into consecutive parts gives
   each fingerprint its own.                                                  *)
RECURSIVE Parts(_, _, _)
Parts(groups, ok, i) ==
    IF i = Len(ok) THEN C!UnblotOk(groups, ok[i].ds, ok[i].texts, E.all)
    ELSE \E n \in 0..Len(groups) : /\ C!UnblotOk(SubSeq(groups, 1, n), ok[i].ds, ok[i].texts, E.all)
                                   /\ Parts(SubSeq(groups, n + 1, Len(groups)), ok, i + 1)
XUnblot ==
    /\ Op("xunblot") /\ Serves(E.r)
    /\ Chk("rc", E.rc = 0)
    /\ LET docs == Corp(E.corp)
           num(id) == IF \E d \in 1..Len(docs) : docs[d].id = id THEN CHOOSE d \in 1..Len(docs) : docs[d].id = id ELSE 0
           of(rb) == LET b == Reduce(rb, Y.c.n)
                         lst == S!Lookup(Y, rb, -1)
                         ds0 == {num(lst[i]) : i \in 1..Len(lst)}
                     IN [ds |-> ds0, texts |-> TLCEval([d \in ds0 |-> C!TextsOf(docs[d], C!WinFps(docs[d], Y.c, WordHash), b)])]
           oks == TLCEval([i \in 1..Len(E.bs) |-> of(E.bs[i])])
           groups == TLCEval([g \in 1..Len(E.groups) |-> [t |-> E.groups[g].t, ds |-> [i \in 1..Len(E.groups[g].ds) |-> num(E.groups[g].ds[i])]]])
       IN Chk("unblot", IF oks = <<>> THEN groups = <<>> ELSE Parts(groups, oks, 1))
    /\ UNCHANGED svars

(* dupenron: every record of a file is a document, the words of which are those
   of its message without the head.  Where in the file they are is left open,
   so that results are compared by their number; ok: the file is well formed   *)
XEnron ==
    /\ Op("xenron")
    /\ IF ~S!CanCreate(E.r, Cfg(E.c)) THEN Chk("rc", E.rc # 0) /\ UNCHANGED svars
       ELSE IF ~E.ok THEN Chk("rc", E.rc # 0) /\ disk' = S!With(disk, E.r, [st |-> "dir"]) /\ UNCHANGED <<wr, rd, qs>>
       ELSE /\ Chk("rc", E.rc = 0)
            /\ disk' = S!With(disk, E.r, [st |-> "idx", x |-> S!Committed(S!Extended(S!Content(Cfg(E.c)),
                                            TLCEval([i \in 1..Len(E.docs) |-> Doc(E.docs[i])])), 0)])
            /\ UNCHANGED <<wr, rd, qs>>
GetCounts == /\ Op("getcounts")
             /\ Chk("get", /\ E.ok /\ Len(E.q) = Cardinality(DOMAIN X.post)
                            /\ \A i \in 1..Len(E.q) : E.q[i].n = Len(S!Lookup(X, E.q[i].b, -1)))
             /\ Chk("paths", \A i \in 1..Len(E.paths) : E.paths[i] = E.file)
             /\ UNCHANGED svars
(* its other use: the first records are printed                               *)
XHead == /\ Op("xhead")
         /\ Chk("rc", E.ok => E.rc = 0)
         /\ Chk("records", E.ok => E.out = SubSeq(E.recs, 1, IF E.n < Len(E.recs) THEN E.n ELSE Len(E.recs)))
         /\ UNCHANGED svars

XStep == XEnron \/ GetCounts \/ XHead \/ XIndex \/ GetBag \/ Refused \/ XExtract \/ XInspect \/ XLike \/ XBlot \/ XUnblot
XNext == /\ l <= Len(T)
         /\ (Step \/ XStep)
         /\ l' = l + 1 /\ UNCHANGED tid
         /\ (l = Len(T)) => PrintT(<<"ACCEPTED", tid>>)
XSpec == TraceInit /\ [][XNext]_<<tid, l, svars>>
=============================================================================
