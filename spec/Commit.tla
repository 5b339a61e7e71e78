------------------------------- MODULE Commit -------------------------------
(* Which files a session writes and in which order, so that a process that dies
   between any two file operations, or a file operation that fails, never costs
   the documents of earlier sessions (P11, P24), and never leaves a part of a
   new index (P10).

   The files of an index: the configuration, the path table, the document table
   (records appended in buffers; the last one may be written in part) and for
   every shard the table of its lists.  What is behind a list's table is the
   subject of Posting.tla; here a shard's table simply holds the list of the
   documents that have a posting in the shard.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Paths, Shards, Rate, MaxDocs, MaxSess,
          Design     \* "code", or a wrong design (to see that the invariants tell)

None == [st |-> "none", v |-> <<>>]
Blank == [st |-> "blank", v |-> <<>>]     \* there, but cannot be read
Full_(v) == [st |-> "full", v |-> v]
VARIABLES cfg, names, dmd, torn, table,   \* on disk
          mem, work, st, made, given, lost, told, nsess, nid
disk == <<cfg, names, dmd, torn, table>>
vars == <<cfg, names, dmd, torn, table, mem, work, st, made, given, lost, told, nsess, nid>>
(* mem    names, buf, flushed, list (shard -> numbers), post: numbers whose posting follows
   work   operations to do, in order; the tables of the shards come in any order
   st     "none" no session, "open", "closing"
   made   the creating session was closed without an error
   given  documents of sessions closed without an error: number -> [p, S]
   lost   documents of this session (number -> [p, S]), or of the creation that did not end
   told   an error was reported in this session
   nid    identity of the next document                                        *)

Rd(n, p) == [node |-> n, id |-> p]
NoDocs == [i \in {} |-> 0]
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]

CreateOps == <<[op |-> "mkdir"]>> \o [i \in 1..Cardinality(Shards) |-> [op |-> "blank", s |-> SetToSeq(Shards)[i]]]
Records(n) == [i \in 1..n |-> [op |-> "record"]] \o <<[op |-> "flushed"]>>
Tables == <<[op |-> "tables", todo |-> Shards]>>
CloseOps(n) ==
    LET recs == IF n = 0 THEN <<>> ELSE Records(n)
        c == <<[op |-> "cfg"]>>  nm == <<[op |-> "names"]>>
    IN CASE Design = "tables first" -> Tables \o c \o nm \o recs
         [] Design = "names late"   -> c \o recs \o Tables \o nm
         [] OTHER                   -> c \o nm \o recs \o Tables

Init == /\ cfg = "none" /\ names = None /\ dmd = <<>> /\ torn = FALSE
        /\ table = [s \in Shards |-> None]
        /\ mem = [names |-> <<>>, buf |-> <<Rd(0, 0)>>, flushed |-> 0, list |-> [s \in Shards |-> <<>>]]
        /\ work = CreateOps /\ st = "open" /\ made = FALSE /\ given = NoDocs /\ lost = NoDocs
        /\ told = FALSE /\ nsess = 1 /\ nid = 1

NodeOf(ns, p) == IF \E i \in 1..Len(ns) : ns[i] = p THEN CHOOSE i \in 1..Len(ns) : ns[i] = p ELSE Len(ns) + 1
WithPath(ns, p) == IF NodeOf(ns, p) > Len(ns) THEN Append(ns, p) ELSE ns

(* a document is added: it goes into the buffer, which is written out before if
   it is full                                                                  *)
Add(p, S) ==
    /\ st = "open" /\ work = <<>> /\ nid <= MaxDocs
    /\ Len(mem.buf) < Rate
    /\ LET ns == WithPath(mem.names, p)
           num == mem.flushed + Len(mem.buf)
       IN /\ mem' = [mem EXCEPT !.names = ns, !.buf = Append(@, Rd(NodeOf(ns, p), nid)),
                                !.list = [s \in Shards |-> IF s \in S THEN Append(@[s], num) ELSE @[s]]]
          /\ lost' = Ext(lost, num, [p |-> p, S |-> S, id |-> nid])
    /\ nid' = nid + 1
    /\ UNCHANGED <<disk, work, st, made, given, told, nsess>>
Full == /\ st = "open" /\ work = <<>> /\ Len(mem.buf) >= Rate
        /\ work' = Records(Len(mem.buf))
        /\ UNCHANGED <<disk, mem, st, made, given, lost, told, nsess, nid>>

Close == /\ st = "open" /\ work = <<>>
         /\ st' = "closing" /\ work' = CloseOps(Len(mem.buf))
         /\ UNCHANGED <<disk, mem, made, given, lost, told, nsess, nid>>

(* --- one file operation ------------------------------------------------------ *)
Index(w) == Cardinality({i \in 1..Len(work) : work[i].op = "record"})  \* records still to write
NextRec == mem.buf[Len(mem.buf) - Index(work) + 1]
At == mem.flushed + (Len(mem.buf) - Index(work))     \* where the record belongs
PutRec == IF Design = "append records" /\ torn THEN SubSeq(dmd, 1, Len(dmd)) \o <<Rd(99, 99)>>   \* a shifted record
          ELSE SubSeq(dmd, 1, At) \o <<NextRec>> \o SubSeq(dmd, At + 2, Len(dmd))
Do == /\ work # <<>>
      /\ LET w == Head(work) IN
         \/ w.op = "mkdir" /\ UNCHANGED <<disk, mem>> /\ work' = Tail(work)
         \/ w.op = "blank" /\ table' = [table EXCEPT ![w.s] = IF Design = "complete tables" THEN Full_(<<>>) ELSE Blank]
                           /\ UNCHANGED <<cfg, names, dmd, torn, mem>> /\ work' = Tail(work)
         \/ w.op = "cfg" /\ cfg' = "there" /\ UNCHANGED <<names, dmd, torn, table, mem>> /\ work' = Tail(work)
         \/ w.op = "names" /\ names' = Full_(mem.names) /\ UNCHANGED <<cfg, dmd, torn, table, mem>> /\ work' = Tail(work)
         \/ w.op = "record" /\ dmd' = PutRec /\ torn' = (torn /\ Design = "append records") /\ UNCHANGED <<cfg, names, table, mem>> /\ work' = Tail(work)
         \/ w.op = "flushed" /\ mem' = [mem EXCEPT !.flushed = @ + Len(mem.buf), !.buf = <<>>]
                             /\ UNCHANGED disk /\ work' = Tail(work)
         \/ /\ w.op = "tables"
            /\ \E s \in w.todo :
                 /\ table' = [table EXCEPT ![s] = Full_(mem.list[s])]
                 /\ work' = IF w.todo = {s} THEN Tail(work) ELSE <<[w EXCEPT !.todo = @ \ {s}]>> \o Tail(work)
            /\ UNCHANGED <<cfg, names, dmd, torn, mem>>
      /\ UNCHANGED <<st, made, given, lost, told, nsess, nid>>

(* the session is over when nothing is left to do                              *)
Clear == [names |-> <<>>, buf |-> <<>>, flushed |-> 0, list |-> [s \in Shards |-> <<>>]]
Closed == /\ st = "closing" /\ work = <<>>
          /\ st' = "none" /\ mem' = Clear
          /\ IF told THEN UNCHANGED <<made, given, lost>>
             ELSE made' = TRUE /\ given' = Merge(given, lost) /\ lost' = NoDocs
          /\ UNCHANGED <<disk, work, told, nsess, nid>>

(* --- what may go wrong --------------------------------------------------------- *)
Tear == Head(work).op = "record" /\ At >= Len(dmd) /\ torn' = TRUE /\ UNCHANGED <<cfg, names, dmd, table>>
Crash == /\ st # "none"
         /\ st' = "none" /\ work' = <<>> /\ mem' = Clear
         /\ (UNCHANGED disk \/ (work # <<>> /\ Tear))
         /\ IF made THEN lost' = NoDocs ELSE UNCHANGED lost
         /\ UNCHANGED <<made, given, told, nsess, nid>>
(* an operation fails: while adding, the error is that of the add, and what is
   in the buffer is written again later; while closing, nothing more is done,
   but for the tables of the other shards; a failing creation takes back what
   it made                                                                     *)
Fail == /\ work # <<>> /\ st # "none"
        /\ told' = TRUE
        /\ LET w == Head(work) IN
           IF w.op \in {"mkdir", "blank"}
           THEN /\ st' = "none" /\ work' = <<>> /\ mem' = Clear
                /\ table' = [s \in Shards |-> None] /\ UNCHANGED <<cfg, names, dmd, torn>>
           ELSE /\ (UNCHANGED disk \/ Tear)
                /\ CASE w.op = "tables" -> \E s \in w.todo : /\ work' = IF w.todo = {s} THEN Tail(work) ELSE <<[w EXCEPT !.todo = @ \ {s}]>> \o Tail(work)
                                                             /\ UNCHANGED <<st, mem>>
                     [] st = "open" -> work' = <<>> /\ UNCHANGED <<st, mem>>
                     [] OTHER -> st' = "none" /\ work' = <<>> /\ mem' = Clear
        /\ UNCHANGED <<made, given, lost, nsess, nid>>

(* --- opening -------------------------------------------------------------------- *)
Usable == /\ cfg # "none" /\ names.st = "full" /\ dmd # <<>>
          /\ \A s \in Shards : table[s].st = "full"
Open == /\ st = "none" /\ Usable /\ nsess < MaxSess
        /\ st' = "open" /\ nsess' = nsess + 1 /\ told' = FALSE /\ work' = <<>>
        /\ mem' = [names |-> names.v, buf |-> <<>>, flushed |-> Len(dmd), list |-> [s \in Shards |-> table[s].v]]
        /\ made' = TRUE       \* it is an index like any other from here on
        /\ given' = IF made THEN given ELSE Merge(given, [n \in {x \in DOMAIN lost : ~told} |-> lost[n]])
        /\ lost' = NoDocs
        /\ UNCHANGED <<disk, nid>>

Next == (\E p \in Paths : \E S \in SUBSET Shards : Add(p, S)) \/ Full \/ Close \/ Do \/ Closed \/ Crash \/ Fail \/ Open
Spec == Init /\ [][Next]_vars

(* --- what holds -------------------------------------------------------------------- *)
Resolves(n, d) == /\ n + 1 <= Len(dmd) /\ dmd[n + 1].id = d.id
                  /\ dmd[n + 1].node <= Len(names.v) /\ names.v[dmd[n + 1].node] = d.p
Found(docs) == \A n \in DOMAIN docs :
                  /\ Resolves(n, docs[n])
                  /\ \A s \in docs[n].S : n \in Range(table[s].v)
(* P11, P24: the documents of the sessions that were closed are always found     *)
Kept == made => (Usable /\ Found(given))
(* P10: a creation that died leaves nothing, or everything                        *)
Whole == (st = "none" /\ ~made /\ ~told /\ Usable) => Found(lost)
(* P24: when nobody was told of a failure, everything is found                    *)
NotSilent == (st = "none" /\ ~told /\ made) => Found(given)
(* whatever is listed can be resolved, and was added                              *)
Listed == (st = "none" /\ Usable) =>
             \A s \in Shards : LET v == table[s].v IN \A i \in 1..Len(v) :
                /\ v[i] + 1 <= Len(dmd) /\ dmd[v[i] + 1].node \in 1..Len(names.v)
                /\ i > 1 => v[i-1] < v[i]
=============================================================================
