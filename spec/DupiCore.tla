------------------------------ MODULE DupiCore ------------------------------
(* Values and functions every other module of the specification is built on:
   32-bit words as <<high half, low half>> (TLC's integers are 32-bit signed),
   the fingerprint of a window of words, the fingerprint space of an index and
   the posting lists of a sequence of documents.

   A document is a record; its field ws is the sequence of its words (each
   word a value on which the hash H is defined; words differing only in letter
   case are the same value), its field id is what identifies it to a user.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise, SequencesExt, FiniteSetsExt, Functions

Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Zero32 == <<0, 0>>

Range1(s) == {s[i] : i \in 1..Len(s)}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* --- fingerprints ------------------------------------------------------ *)

(* Combination of the hashes of the last k words of the stream that word i
   belongs to; every m-th word is of the same stream.  Words before the first
   do not contribute.                                                       *)
RECURSIVE WindowFrom(_, _, _, _)
WindowFrom(hs, i, k, m) ==
    IF k = 0 \/ i < 1 THEN Zero32
    ELSE Xor32(hs[i], WindowFrom(hs, i - m, k - 1, m))
Window(hs, i, k, m) == WindowFrom(hs, i, k, m)

(* A fingerprint is recorded at every word after the first k*m ones.        *)
Fps(hs, k, m) == [i \in 1..Max2(0, Len(hs) - k*m) |-> Window(hs, i + k*m, k, m)]

Hashes(ws, H) == [i \in 1..Len(ws) |-> H[ws[i]]]

(* An index with n shards keeps the fingerprint modulo n * 2^16.            *)
Reduce(f, n) == (f[1] % n) * 65536 + f[2]
Shard(f, n)  == Reduce(f, n) % n
Slot(f, n)   == Reduce(f, n) \div n
Join(sh, sl, n) == n * sl + sh

DocFps(d, c, H) == LET f == Fps(Hashes(d.ws, H), c.k, c.m)
                   IN {Reduce(f[i], c.n) : i \in 1..Len(f)}

(* --- posting lists ----------------------------------------------------- *)

(* fp -> positions (in docs) of the documents having it, ascending.         *)
Postings(docs, c, H) ==
    LET fps == TLCEval([i \in 1..Len(docs) |-> DocFps(docs[i], c, H)])
        all == UNION {fps[i] : i \in 1..Len(docs)}
    IN [f \in all |-> SelectSeq([i \in 1..Len(docs) |-> i], LAMBDA i : f \in fps[i])]

(* The same from the postings of a first part of the documents.             *)
PostingsMore(post, docs, from, c, H) ==
    LET fps == TLCEval([i \in from..Len(docs) |-> DocFps(docs[i], c, H)])
        new == UNION {fps[i] : i \in from..Len(docs)}
        idx == [j \in 1..(Len(docs) - from + 1) |-> j + from - 1]
    IN [f \in DOMAIN post \cup new |->
            (IF f \in DOMAIN post THEN post[f] ELSE <<>>) \o
            (IF f \in new THEN SelectSeq(idx, LAMBDA i : f \in fps[i]) ELSE <<>>)]

ListOf(post, f) == IF f \in DOMAIN post THEN post[f] ELSE <<>>

(* --- passages ----------------------------------------------------------- *)

(* Runs of len consecutive words of a document.                             *)
Runs(d, len) == {SubSeq(d.ws, i, i + len - 1) : i \in 1..Max2(0, Len(d.ws) - len + 1)}
SharePassage(a, b, len) == Runs(a, len) \cap Runs(b, len) # {}

(* --- paths --------------------------------------------------------------- *)
(* A path is the sequence of its components; the path tree has a root and a
   node for every non-empty prefix of a path.                               *)
PathNodes(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}

(* --- configurations ------------------------------------------------------ *)
ValidCfg(c) == /\ c.k >= 1 /\ c.m >= 1 /\ c.n >= 1 /\ c.n <= 65535
               /\ c.w >= 1 /\ c.fl >= 1 /\ c.tok = "words.simple"
               /\ c.s = c.k * c.m
=============================================================================
