------------------------------- MODULE MCWalk -------------------------------
(* The two definitions of a walk agree on all trees of up to two levels below
   the given directory, whatever is hidden or cannot be read.                *)
EXTENDS Commands
CONSTANT Wide
Names == {<<"a">>, <<".", "b">>} \cup (IF Wide THEN {<<".", ".", "c">>} ELSE {})
Files == [dir : {FALSE}, ok : BOOLEAN, kids : {<<>>}]
Dirs(kids) == [dir : {TRUE}, ok : BOOLEAN, kids : kids]
KidsOf(E) == {f \in UNION {[S -> E] : S \in SUBSET Names} : TRUE}
L2 == Files \cup Dirs({<<>>})
L1 == Files \cup Dirs(KidsOf(L2))
RECURSIVE Flat(_, _)
Flat(p, e) == <<[p |-> p, nm |-> p[Len(p)], dir |-> e.dir, ok |-> e.ok]>> \o
              (IF e.kids = <<>> THEN <<>>
               ELSE FlattenSeq([i \in 1..Cardinality(DOMAIN e.kids) |->
                       LET n == SetToSeq(DOMAIN e.kids)[i] IN Flat(p \o <<n>>, e.kids[n])]))
VARIABLES root, arg
ArgNames == {<<"r">>, <<".">>, <<".", ".">>, <<".", "r">>}
Init == /\ root \in L1
        /\ \E nm \in ArgNames, q \in {<<>>, <<<<"a">>>>, <<<<".", "b">>>>, <<<<"a">>, <<"a">>>>} :
              arg = [p |-> <<<<"r">>>> \o q, nm |-> IF q = <<>> THEN nm ELSE q[Len(q)]]
Next == UNCHANGED <<root, arg>>
Tree == Flat(<<<<"r">>>>, root)
Agree == LET w == Walk(Tree, arg) t == Tree
         IN w.docs = Taken(t, arg) /\ w.err = WalkFails(t, arg)
Spec == Init /\ [][Next]_<<root, arg>>
=============================================================================
