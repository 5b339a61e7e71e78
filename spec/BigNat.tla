------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: sequences of limbs, base 4096, least first,
   without leading zeros.  (TLC's integers have 32 bits.)                    *)
EXTENDS Integers, Sequences, SequencesExt
Base == 4096
RECURSIVE ToBig(_), Carry(_, _), Trim(_), CmpAt(_, _, _)
ToBig(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o ToBig(n \div Base)
Trim(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE Trim(SubSeq(s, 1, Len(s) - 1))
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
(* limbs that may be too big (but not negative) made proper                  *)
Carry(s, c) == IF s = <<>> THEN ToBig(c)
               ELSE <<(s[1] + c) % Base>> \o Carry(Tail(s), (s[1] + c) \div Base)
BAdd(a, b) == Trim(Carry([i \in 1..Longer(a, b) |-> At(a, i) + At(b, i)], 0))
Times1(a, d, shift) == [i \in 1..(Len(a) + shift) |-> IF i <= shift THEN 0 ELSE a[i - shift] * d]
BMul(a, b) == FoldLeftDomain(LAMBDA acc, i : BAdd(acc, Trim(Carry(Times1(a, b[i], i - 1), 0))), <<>>, b)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
BLess(a, b) == BCmp(a, b) = -1
(* a - b, a at least b                                                       *)
BSub(a, b) ==
    Trim(FoldLeftDomain(LAMBDA acc, i :
            LET v == a[i] - At(b, i) - acc.bor
            IN [out |-> Append(acc.out, IF v < 0 THEN v + Base ELSE v), bor |-> IF v < 0 THEN 1 ELSE 0],
         [out |-> <<>>, bor |-> 0], a).out)
BDist(a, b) == IF BLess(a, b) THEN BSub(b, a) ELSE BSub(a, b)
=============================================================================
