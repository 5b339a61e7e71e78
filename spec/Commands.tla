------------------------------ MODULE Commands ------------------------------
(* What the commands of the program mean.

   Walking.  A tree is a sequence of nodes in the order of a walk:
     [p |-> path (sequence of names), nm |-> characters of the last name,
      dir |-> is it a directory, ok |-> can it be read]
   An argument is [p |-> path, nm |-> characters of the last name as given]. *)
EXTENDS DupiCore, BigNat

Hidden(nm) == Len(nm) > 1 /\ nm[1] = "." /\ nm # <<".", ".">>
Below(p, q) == IsPrefix(p, q)              \* q is p or below p

(* declaratively: on the way from the given one to n nothing is hidden, and
   all directories before n can be read                                      *)
Chain(tree, arg, n) == {i \in 1..Len(tree) : Below(arg.p, tree[i].p) /\ Below(tree[i].p, n.p)}
NameAt(arg, m) == IF m.p = arg.p THEN arg.nm ELSE m.nm
Reached(tree, arg, n) ==
    /\ Below(arg.p, n.p)
    /\ \A i \in Chain(tree, arg, n) : /\ ~Hidden(NameAt(arg, tree[i]))
                                      /\ tree[i].p # n.p => tree[i].ok
Exists(tree, arg) == \E i \in 1..Len(tree) : tree[i].p = arg.p
(* positions in the tree of the documents that come from an argument, and of
   what cannot be read                                                       *)
Taken(tree, arg) == SelectSeq([i \in 1..Len(tree) |-> i],
                       LAMBDA i : ~tree[i].dir /\ tree[i].ok /\ Reached(tree, arg, tree[i]))
Unread(tree, arg) == {i \in 1..Len(tree) : ~tree[i].ok /\ Reached(tree, arg, tree[i])}
WalkFails(tree, arg) == ~Exists(tree, arg) \/ Unread(tree, arg) # {}

(* the same by walking down, as a program does                               *)
RECURSIVE Visit(_, _, _), VisitAll(_, _)
Children(tree, i) == SelectSeq([j \in 1..Len(tree) |-> j],
                        LAMBDA j : Len(tree[j].p) = Len(tree[i].p) + 1 /\ Below(tree[i].p, tree[j].p))
VisitAll(tree, is) == IF is = <<>> THEN [docs |-> <<>>, err |-> FALSE]
                      ELSE LET a == Visit(tree, is[1], tree[is[1]].nm) b == VisitAll(tree, Tail(is))
                           IN [docs |-> a.docs \o b.docs, err |-> a.err \/ b.err]
Visit(tree, i, nm) ==
    IF Hidden(nm) THEN [docs |-> <<>>, err |-> FALSE]
    ELSE IF ~tree[i].ok THEN [docs |-> <<>>, err |-> TRUE]
    ELSE IF ~tree[i].dir THEN [docs |-> <<i>>, err |-> FALSE]
    ELSE VisitAll(tree, Children(tree, i))
Walk(tree, arg) == IF ~Exists(tree, arg) THEN [docs |-> <<>>, err |-> TRUE]
                   ELSE Visit(tree, CHOOSE i \in 1..Len(tree) : tree[i].p = arg.p, arg.nm)

(* Extracting.  A list of len documents qualifies if len is at least
   round(mean + sigma * deviation), that is (half is rounded up)
        mean + sigma * deviation  <  len + 1/2.
   With B fingerprints, p1 the sum of the lengths, p2 that of their squares:
        sigma * sqrt(4 (B p2 - p1^2))  <  B (2 len + 1) - 2 p1
   sigma is +-num/den.  Close to equality both answers are right (the program
   computes with floating-point numbers).                                    *)
Close(a, b) == BLess(BMul(ToBig(1000000), BDist(a, b)), b)
Qualifies(B, p1, p2, len, sg) ==
    LET bb == ToBig(B)
        V4 == BMul(ToBig(4), BSub(BMul(bb, ToBig(p2)), BMul(ToBig(p1), ToBig(p1))))
        lhs == BMul(BMul(ToBig(sg.num), ToBig(sg.num)), V4)          \* (sigma den)^2 V4
        r1 == BMul(bb, ToBig(2 * len + 1))
        r2 == ToBig(2 * p1)
        pos == BLess(r2, r1)                                         \* right-hand side positive
        dd == BDist(r1, r2)
        rhs == BMul(BMul(ToBig(sg.den), ToBig(sg.den)), BMul(dd, dd))
    IN IF lhs = <<>> /\ dd = <<>> THEN "either"
       ELSE IF (pos = ~sg.neg) /\ Close(lhs, rhs) THEN "either"
       ELSE IF ~sg.neg THEN (IF pos /\ BLess(lhs, rhs) THEN "yes" ELSE "no")
       ELSE (IF pos \/ BLess(rhs, lhs) THEN "yes" ELSE "no")

(* Passages.  A text has the words ws and the windows win: win[j] is the text
   of the K + 1 words from word j on; the fingerprint of window j is the one
   at word j + K.                                                            *)
Alike(a, b) == Range1(a.win) \cap Range1(b.win) # {}
WinFps(d, c, H) == LET f == Fps(Hashes(d.ws, H), c.k, c.m) IN [j \in DOMAIN f |-> Reduce(f[j], c.n)]
TextsOf(d, f, b) == {d.win[j] : j \in {y \in DOMAIN f : f[y] = b}}

(* Can the elements of cands (a sequence of sets) be given different values,
   none of them in used?                                                     *)
RECURSIVE Distinct(_, _)
Distinct(cands, used) ==
    IF cands = <<>> THEN TRUE
    ELSE \E t \in cands[1] \ used : Distinct(Tail(cands), used \cup {t})
(* groups: sequence of [t, ds]: passages with the documents (numbers) printed
   under them; ds0: the documents having the fingerprint; texts[d]: their
   passages for it                                                           *)
UnblotOk(groups, ds0, texts, all) ==
    LET printed == UNION {Range1(groups[g].ds) : g \in 1..Len(groups)}
        used == {groups[g].t : g \in 1..Len(groups)}
        rest == SetToSeq(ds0 \ printed)
    IN /\ \A g \in 1..Len(groups) :
            /\ Range1(groups[g].ds) \subseteq ds0
            /\ Cardinality(Range1(groups[g].ds)) = Len(groups[g].ds)
            /\ \A d \in Range1(groups[g].ds) : groups[g].t \in texts[d]
            /\ Len(groups[g].ds) >= (IF all THEN 1 ELSE 2)
       /\ \A g, h \in 1..Len(groups) : g # h => /\ groups[g].t # groups[h].t
                                                /\ Range1(groups[g].ds) \cap Range1(groups[h].ds) = {}
       /\ IF all THEN rest = <<>> ELSE Distinct([i \in 1..Len(rest) |-> texts[rest[i]]], used)
=============================================================================
