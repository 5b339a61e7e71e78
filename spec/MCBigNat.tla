------------------------------ MODULE MCBigNat ------------------------------
(* BigNat agrees with the integers where those suffice, and is a ring.       *)
EXTENDS BigNat, TLC
S == {0, 1, 2, 3, 7, 4095, 4096, 4097, 8191, 65535, 46340, 46341, 16777215, 16777216}
M == {x \in S : x <= 46340}
B == {BMul(ToBig(x), BMul(ToBig(y), ToBig(z))) : x, y, z \in {1, 4095, 4096, 65535, 16777215}}
ASSUME \A x, y \in S : /\ BAdd(ToBig(x), ToBig(y)) = ToBig(x + y)
                       /\ (BCmp(ToBig(x), ToBig(y)) = -1) = (x < y)
                       /\ x >= y => BSub(ToBig(x), ToBig(y)) = ToBig(x - y)
ASSUME \A x, y \in M : BMul(ToBig(x), ToBig(y)) = ToBig(x * y)
ASSUME \A a, b \in B : /\ BMul(a, b) = BMul(b, a) /\ BAdd(a, b) = BAdd(b, a)
                       /\ BSub(BAdd(a, b), b) = a /\ BCmp(BAdd(a, b), a) = 1
                       /\ BDist(a, b) = BDist(b, a)
ASSUME \A a, b \in B : \A c \in {ToBig(5), ToBig(65536)} : BMul(c, BAdd(a, b)) = BAdd(BMul(c, a), BMul(c, b))
=============================================================================
