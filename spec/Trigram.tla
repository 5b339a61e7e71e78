------------------------------ MODULE Trigram ------------------------------
(* Trigrams of a text (attic/trigram): the text is a sequence of letters of an
   alphabet of N letters, the last of which stands for everything between
   words; its trigrams are all runs of three consecutive letters, as if the
   text were preceded by three of that last letter.

   The code keeps one number and shifts letters into it.  Here the shifting
   machine is compared with the definition for all texts up to a length.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, MaxLen, Reset        \* Reset: the machine starts again after a token that is not a word
Other == N - 1

(* bytes of words as letters of the alphabet of 37                            *)
Letter(b) == IF b \in 48..57 THEN b - 48
             ELSE IF b \in 97..122 THEN b - 97 + 10
             ELSE IF b \in 65..90 THEN b - 65 + 10
             ELSE 36
Name(c) == IF c <= 9 THEN 48 + c ELSE IF c <= 35 THEN 97 + c - 10 ELSE 95
(* the three characters a trigram is printed as                               *)
Chars(t) == <<Name(t \div (37 * 37)), Name((t \div 37) % 37), Name(t % 37)>>

(* the letters of a sequence of tokens [word, lit]                            *)
RECURSIVE LettersFrom(_, _)
LettersFrom(toks, i) == IF i > Len(toks) THEN <<>>
                        ELSE (IF toks[i].word THEN [j \in 1..Len(toks[i].lit) |-> Letter(toks[i].lit[j])] ELSE <<36>>)
                             \o LettersFrom(toks, i + 1)
Letters(toks) == LettersFrom(toks, 1)

At(L, i, n) == IF i < 1 THEN n - 1 ELSE L[i]
Code(L, i, n) == (At(L, i - 2, n) * n + At(L, i - 1, n)) * n + At(L, i, n)
Trigrams(L, n) == [i \in 1..Len(L) |-> Code(L, i, n)]

(* --- the machine -------------------------------------------------------- *)
VARIABLES text, tri, seen
vars == <<text, tri, seen>>
Shift(t, c) == (t % (N * N)) * N + c
Zero == Shift(Shift(Shift(0, Other), Other), Other)
Init == text = <<>> /\ tri = Zero /\ seen = <<>>
Next == /\ Len(text) < MaxLen
        /\ \E c \in 0..(N - 1) :
             /\ text' = Append(text, c)
             /\ seen' = Append(seen, Shift(tri, c))
             /\ tri' = IF Reset /\ c = Other THEN Shift(0, c) ELSE Shift(tri, c)
Spec == Init /\ [][Next]_vars
Correct == /\ seen = Trigrams(text, N)
           /\ \A i \in 1..Len(seen) : seen[i] \in 0..(N * N * N - 1)
=============================================================================
