------------------------------- MODULE Posting -------------------------------
(* How one shard keeps its posting lists: every slot (fingerprint within the
   shard) has a list of document numbers, stored as differences in chunks that
   are appended to one file and linked; a table written at the end of a session
   has for every slot the first chunk, the number of committed postings and the
   last document.  The process may die between any two file operations.

   The file is a sequence of chunks; a link is the position of the next chunk
   (which, after a crash, may not be there or belong to another list), 0 for
   none.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

CONSTANTS Slots, F,        \* F: postings a buffer holds before it is written
          MaxDoc, MaxSess,
          Bounded          \* readers and appenders stop at the committed total

VARIABLES file, table, mem, work, sess, doc, cdoc, want, done, nsess
vars == <<file, table, mem, work, sess, doc, cdoc, want, done, nsess>>
(* file   chunks [d, link]
   table  slot -> [head, total, last], or <<>> while there is none
   mem    of the open session: slot -> [head, link, last, total, buf]
   work   file operations the session still has to do, in order
   sess   "none", "open", "closing", "dead" (the creating session crashed)
   doc    number of the last document
   cdoc   number of the last document of the committed sessions
   want   slot -> list the session has taken so far
   done   slot -> list committed                                             *)

NoTable == <<>>
Blank == [s \in Slots |-> [head |-> 0, link |-> 0, last |-> 0, total |-> 0, buf |-> <<>>]]

Init == /\ file = <<>> /\ table = NoTable /\ mem = Blank /\ work = <<>>
        /\ sess = "open" /\ doc = 0 /\ cdoc = 0 /\ nsess = 1
        /\ want = [s \in Slots |-> <<>>] /\ done = [s \in Slots |-> <<>>]

(* one posting; repeated ones of a document are dropped                       *)
Post(m, v) == IF m.last = v /\ m.total # 0 THEN m
              ELSE [m EXCEPT !.buf = Append(@, v - m.last), !.last = v, !.total = @ + 1]

FlushOps(s) == <<[op |-> "link", s |-> s], [op |-> "chunk", s |-> s]>>

(* a document whose fingerprints fall into the slots S (each twice)           *)
AddDoc(S) ==
    /\ sess = "open" /\ work = <<>> /\ doc < MaxDoc
    /\ doc' = doc + 1
    /\ mem' = [s \in Slots |-> IF s \in S THEN Post(Post(mem[s], doc'), doc') ELSE mem[s]]
    /\ want' = [s \in Slots |-> IF s \in S THEN Append(want[s], doc') ELSE want[s]]
    /\ work' = FlattenSeq([i \in 1..Cardinality(Slots) |->
                  LET s == SetToSeq(Slots)[i]
                  IN IF s \in S /\ Len(mem'[s].buf) >= F THEN FlushOps(s) ELSE <<>>])
    /\ UNCHANGED <<file, table, sess, done, nsess, cdoc>>

Close ==
    /\ sess = "open" /\ work = <<>>
    /\ sess' = "closing"
    /\ work' = FlattenSeq([i \in 1..Cardinality(Slots) |->
                  LET s == SetToSeq(Slots)[i] IN IF mem[s].buf # <<>> THEN FlushOps(s) ELSE <<>>])
               \o <<[op |-> "table", s |-> 0]>>
    /\ UNCHANGED <<file, table, mem, doc, cdoc, want, done, nsess>>

(* the next file operation                                                    *)
Link(s) == IF mem[s].link = 0
           THEN mem' = [mem EXCEPT ![s].head = Len(file) + 1] /\ UNCHANGED file
           ELSE file' = [file EXCEPT ![mem[s].link].link = Len(file) + 1] /\ UNCHANGED mem
Chunk(s) == /\ file' = Append(file, [d |-> mem[s].buf, link |-> 0])
            /\ mem' = [mem EXCEPT ![s].link = Len(file) + 1, ![s].buf = <<>>]
Do == /\ work # <<>>
      /\ work' = Tail(work)
      /\ LET w == Head(work) IN
           \/ /\ w.op = "link"  /\ Link(w.s)  /\ UNCHANGED <<table, sess, done, cdoc>>
           \/ /\ w.op = "chunk" /\ Chunk(w.s) /\ UNCHANGED <<table, sess, done, cdoc>>
           \/ /\ w.op = "table"
              /\ table' = [s \in Slots |-> [head |-> mem[s].head, total |-> mem[s].total, last |-> mem[s].last]]
              /\ sess' = "none" /\ done' = want /\ cdoc' = doc
              /\ UNCHANGED <<file, mem>>
      /\ UNCHANGED <<doc, want, nsess>>

(* the chunk whose link the next chunk is attached to                         *)
RECURSIVE EndOf(_, _, _)
EndOf(at, seen, total) ==
    LET n == seen + Len(file[at].d)
    IN IF file[at].link = 0 \/ (Bounded /\ n >= total) THEN at ELSE EndOf(file[at].link, n, total)

RECURSIVE Complete(_, _, _)
Complete(at, seen, total) ==      \* the walk meets no missing chunk
    at <= Len(file) /\ LET n == seen + Len(file[at].d)
                       IN IF file[at].link = 0 \/ (Bounded /\ n >= total) THEN TRUE ELSE Complete(file[at].link, n, total)

Usable == table # NoTable
OpenFails == \E s \in Slots : table[s].head # 0 /\ ~Complete(table[s].head, 0, table[s].total)

Open ==
    /\ sess = "none" /\ Usable /\ ~OpenFails /\ nsess < MaxSess
    /\ sess' = "open" /\ nsess' = nsess + 1
    /\ mem' = [s \in Slots |-> [head |-> table[s].head, last |-> table[s].last, total |-> table[s].total, buf |-> <<>>,
                                link |-> IF table[s].head = 0 THEN 0 ELSE EndOf(table[s].head, 0, table[s].total)]]
    /\ want' = done /\ work' = <<>>
    /\ UNCHANGED <<file, table, doc, cdoc, done>>

Crash ==
    /\ sess \in {"open", "closing"}
    /\ sess' = IF Usable THEN "none" ELSE "dead"
    /\ mem' = Blank /\ work' = <<>> /\ want' = done
    /\ doc' \in cdoc..doc      \* records of the document table that were written
    /\ UNCHANGED <<file, table, cdoc, done, nsess>>

Next == (\E S \in SUBSET Slots : AddDoc(S)) \/ Close \/ Do \/ Open \/ Crash
Spec == Init /\ [][Next]_vars

(* --- what a reader gets ------------------------------------------------------ *)
RECURSIVE Decode(_, _, _)
Decode(at, cur, total) ==
    IF at = 0 \/ (Bounded /\ total = 0) THEN <<>>
    ELSE IF at > Len(file) THEN <<-1>>                         \* read error
    ELSE LET d == file[at].d
             n == IF Bounded /\ Len(d) > total THEN total ELSE Len(d)
             vals == FoldLeft(LAMBDA a, x : Append(a, (IF a = <<>> THEN cur ELSE a[Len(a)]) + x), <<>>, d)
         IN SubSeq(vals, 1, n) \o Decode(file[at].link, vals[Len(vals)], total - n)
Read(s) == Decode(table[s].head, 0, table[s].total)

(* P02, P03, P10, P11: whatever happened, a reader finds what was committed    *)
ReadsCommitted == Usable => \A s \in Slots : Read(s) = done[s]
(* P11: and the index can be appended to again                                 *)
Appendable == (sess = "none" /\ Usable) => ~OpenFails
(* P02: the file has the document in at most one posting                       *)
Ascending == \A s \in Slots : \A i \in 1..(Len(done[s]) - 1) : done[s][i] < done[s][i+1]
(* only a creating session leaves something unusable                           *)
DeadMeansUnused == sess = "dead" => ~Usable
TypeOk == sess \in {"none", "open", "closing", "dead"}
=============================================================================
