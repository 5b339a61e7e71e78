------------------------------ MODULE MCExtract ------------------------------
(* The threshold of extract, computed with squares only, against the direct
   definition where the deviation is rational; monotonicity elsewhere.       *)
EXTENDS Commands
(* lists of lengths: c1 of length a and c2 of length b among B fingerprints   *)
Cases == [B : {1, 2, 5, 16, 100}, a : 0..2, b : {0, 1, 3, 6}, c1 : 0..3, c2 : {0, 1, 4}]
Good == {x \in Cases : x.c1 + x.c2 <= x.B}
P1(x) == x.a * x.c1 + x.b * x.c2
P2(x) == x.a * x.a * x.c1 + x.b * x.b * x.c2
V(x) == x.B * P2(x) - P1(x) * P1(x)
Sigmas == {[num |-> n, den |-> d, neg |-> g] : n \in {0, 1, 5, 30}, d \in {1, 10}, g \in BOOLEAN}
Root(v) == CHOOSE r \in 0..v : r * r = v
IsSquare(v) == \E r \in 0..20000 : r * r = v
Squares == {x \in Good : IsSquare(V(x))}
Sq == [x \in Squares |-> CHOOSE r \in 0..20000 : r * r = V(x)]
(* mean + sigma dev < len + 1/2  <=>  2 den p1 + 2 sn num r < den B (2 len + 1) *)
Direct(x, len, sg) ==
    LET lhs == 2 * sg.den * P1(x) + (IF sg.neg THEN -1 ELSE 1) * 2 * sg.num * Sq[x]
        rhs == sg.den * x.B * (2 * len + 1)
    IN IF lhs = rhs THEN "equal" ELSE IF lhs < rhs THEN "yes" ELSE "no"
ASSUME \A x \in Squares : \A sg \in Sigmas : \A len \in {0, 1, 2, 3, 6, 30} :
          LET q == Qualifies(x.B, P1(x), P2(x), len, sg) d == Direct(x, len, sg)
          IN q = d \/ (d = "equal" /\ q = "either") 
ASSUME \A x \in Good : \A sg \in Sigmas : \A len \in {0, 1, 2, 6} :
          Qualifies(x.B, P1(x), P2(x), len, sg) = "yes" => Qualifies(x.B, P1(x), P2(x), len + 1, sg) = "yes"
ASSUME PrintT(<<"squares", Cardinality(Squares), Cardinality(Good)>>)
=============================================================================
