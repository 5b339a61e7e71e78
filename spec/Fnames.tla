------------------------------- MODULE Fnames -------------------------------
(* The path tree: every path is the number of a node; a node has a name and a
   parent; node 1 is the root (number 0 in the code).  It is written as the
   list of its nodes and rebuilt, with the children of every node, when read. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Names, MaxLen, MaxAdds, MaxReads, Rebuilt   \* Rebuilt: the children are found again when it is read
VARIABLES nodes, kids, given, adds, reads
vars == <<nodes, kids, given, adds, reads>>
(* nodes: sequence of [name, parent]; kids: set of <<parent, name, child>>;
   given: path -> the node it was given                                       *)
Paths == UNION {[1..n -> Names] : n \in 1..MaxLen}
Root == [name |-> "", parent |-> 1]
Init == nodes = <<Root>> /\ kids = {} /\ given = <<>> /\ adds = 0 /\ reads = 0

Child(ks, p, nm) == {k[3] : k \in {x \in ks : x[1] = p /\ x[2] = nm}}
RECURSIVE Intern(_, _, _, _)
Intern(ns, ks, at, p) ==
    IF p = <<>> THEN [ns |-> ns, ks |-> ks, at |-> at]
    ELSE LET c == Child(ks, at, Head(p)) IN
         IF c # {} THEN Intern(ns, ks, CHOOSE x \in c : TRUE, Tail(p))
         ELSE LET n == Len(ns) + 1
              IN Intern(Append(ns, [name |-> Head(p), parent |-> at]), ks \cup {<<at, Head(p), n>>}, n, Tail(p))
Add(p) == /\ adds < MaxAdds
          /\ LET r == Intern(nodes, kids, 1, p) IN
               nodes' = r.ns /\ kids' = r.ks /\ given' = Append(given, <<p, r.at>>)
          /\ adds' = adds + 1 /\ UNCHANGED reads
(* writing and reading again: the children are found from the parents         *)
Reread == /\ reads < MaxReads /\ reads' = reads + 1
          /\ kids' = IF Rebuilt THEN {<<nodes[i].parent, nodes[i].name, i>> : i \in 2..Len(nodes)} ELSE {}
          /\ UNCHANGED <<nodes, given, adds>>
Next == (\E p \in Paths : Add(p)) \/ Reread
Spec == Init /\ [][Next]_vars

RECURSIVE Abs(_)
Abs(i) == IF i = 1 THEN <<>> ELSE Append(Abs(nodes[i].parent), nodes[i].name)
Identity == \A i \in 1..Len(given) : Abs(given[i][2]) = given[i][1]
OneNode == \A i, j \in 1..Len(given) : (given[i][1] = given[j][1]) <=> (given[i][2] = given[j][2])
NodeCount == Len(nodes) = 1 + Cardinality(UNION {{SubSeq(given[i][1], 1, k) : k \in 1..Len(given[i][1])} : i \in 1..Len(given)})
Parents == \A i \in 2..Len(nodes) : nodes[i].parent < i
=============================================================================
