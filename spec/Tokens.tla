------------------------------- MODULE Tokens -------------------------------
(* Tokenisation.  A text is a sequence of characters; all that matters of a
   character is whether it belongs to words (w) and how many bytes it has (n).
   A token is [tag, pos, len].

   The scanner below works character by character, like the code; what it
   returns is compared with the declarative definition for every text up to a
   length.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Off(t, i) == FoldLeft(LAMBDA a, u : a + u.n, 0, SubSeq(t, 1, i - 1))
Size(t) == Off(t, Len(t) + 1)

(* maximal runs of word characters: <<first byte, number of bytes>>           *)
Runs(t) == {r \in (1..Len(t)) \X (1..Len(t)) :
              /\ r[1] <= r[2]
              /\ \A i \in r[1]..r[2] : t[i].w
              /\ r[1] = 1 \/ ~t[r[1] - 1].w
              /\ r[2] = Len(t) \/ ~t[r[2] + 1].w}
Spans(t) == {<<Off(t, r[1]), Off(t, r[2] + 1) - Off(t, r[1])>> : r \in Runs(t)}

(* the same, computed in one pass                                             *)
SpanSeq(t) ==
    FoldLeft(LAMBDA a, u :
        [at |-> a.at + u.n, in |-> u.w,
         out |-> IF ~u.w THEN a.out
                 ELSE IF a.in THEN [a.out EXCEPT ![Len(a.out)] = <<@[1], @[2] + u.n>>]
                 ELSE Append(a.out, <<a.at, u.n>>)],
        [at |-> 0, in |-> FALSE, out |-> <<>>], t).out

(* what a tokenisation of t has to be: the tokens one after the other make up
   the text, the words among them are its runs                               *)
Good(t, toks) ==
    /\ \A i \in 1..Len(toks) :
          /\ toks[i].tag \in {"word", "other"}
          /\ toks[i].len > 0
          /\ toks[i].pos = IF i = 1 THEN 0 ELSE toks[i-1].pos + toks[i-1].len
    /\ (IF toks = <<>> THEN 0 ELSE toks[Len(toks)].pos + toks[Len(toks)].len) = Size(t)
    /\ LET ws == SelectSeq(toks, LAMBDA x : x.tag = "word")
       IN [i \in 1..Len(ws) |-> <<ws[i].pos, ws[i].len>>] = SpanSeq(t)

(* --- the scanner ------------------------------------------------------------ *)
CONSTANTS Units, MaxLen, LastFlushed   \* LastFlushed: the rest is a token of its own kind
VARIABLES text, i, j, inWord, toks, over
vars == <<text, i, j, inWord, toks, over>>
Init == text = <<>> /\ i = 0 /\ j = 0 /\ inWord = FALSE /\ toks = <<>> /\ over = FALSE
Tok(tag, from, to) == [tag |-> tag, pos |-> from, len |-> to - from]
Char(u) ==
    /\ ~over /\ Len(text) < MaxLen
    /\ text' = Append(text, u)
    /\ i' = i + u.n
    /\ IF u.w
       THEN /\ toks' = IF ~inWord /\ j < i THEN Append(toks, Tok("other", j, i)) ELSE toks
            /\ j' = IF ~inWord /\ j < i THEN i ELSE j
            /\ inWord' = TRUE
       ELSE /\ toks' = IF inWord /\ j < i THEN Append(toks, Tok("word", j, i)) ELSE toks
            /\ j' = IF inWord /\ j < i THEN i ELSE j
            /\ inWord' = FALSE
    /\ UNCHANGED over
End == /\ ~over /\ over' = TRUE
       /\ toks' = IF j < i THEN Append(toks, Tok(IF inWord /\ LastFlushed THEN "word" ELSE "other", j, i)) ELSE toks
       /\ UNCHANGED <<text, i, j, inWord>>
Next == End \/ \E u \in Units : Char(u)
Spec == Init /\ [][Next]_vars

Correct == over => Good(text, toks)
SameDefinition == {SpanSeq(text)[x] : x \in 1..Len(SpanSeq(text))} = Spans(text)
UnitSet == {[w |-> TRUE, n |-> 1], [w |-> TRUE, n |-> 2], [w |-> TRUE, n |-> 4], [w |-> FALSE, n |-> 1], [w |-> FALSE, n |-> 3]}
=============================================================================
