------------------------------ MODULE TokensGen ------------------------------
(* All texts up to a length over a set of kinds of characters.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Kinds, Length
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(UNION {[1..n -> 1..Kinds] : n \in 0..Length}))
=============================================================================
