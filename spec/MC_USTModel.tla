---- MODULE MC_USTModel ----
(* Design-level model over every connected graph on N nodes: the random-walk samplers as          *)
(* transition systems (walker, partial tree) and the determinantal description.                   *)
EXTENDS Graphs
CONSTANT N
AllEdges == {e \in SUBSET (1..N) : Cardinality(e) = 2}
VARIABLES G, algo, at, path, tree, inTree
vars == <<G, algo, at, path, tree, inTree>>
Nb(v) == {u \in 1..N : {u, v} \in G}
Init == /\ G \in {E \in SUBSET AllEdges : Connected(N, E)}
        /\ algo \in {"walk", "lerw"}
        /\ \E r \in 1..N : at = r /\ inTree = {r}
        /\ path = <<>> /\ tree = {}
\* Aldous-Broder: first-entrance edges of a random walk
Walk == /\ algo = "walk" /\ inTree # 1..N
        /\ \E u \in Nb(at) :
              /\ at' = u
              /\ inTree' = inTree \cup {u}
              /\ tree' = IF u \in inTree THEN tree ELSE tree \cup {{at, u}}
        /\ UNCHANGED <<G, algo, path>>
\* Wilson: loop-erased walks grafted on the tree
Start == /\ algo = "lerw" /\ path = <<>> /\ inTree # 1..N
         /\ \E v \in (1..N) \ inTree : path' = <<v>>
         /\ UNCHANGED <<G, algo, at, tree, inTree>>
Erase(p, u) == IF \E i \in 1..Len(p) : p[i] = u
               THEN SubSeq(p, 1, CHOOSE i \in 1..Len(p) : p[i] = u) ELSE Append(p, u)
Move == /\ algo = "lerw" /\ path # <<>>
        /\ \E u \in Nb(path[Len(path)]) :
             IF u \in inTree
             THEN /\ tree' = tree \cup {{path[i], IF i = Len(path) THEN u ELSE path[i + 1]} : i \in 1..Len(path)}
                  /\ inTree' = inTree \cup {path[i] : i \in 1..Len(path)}
                  /\ path' = <<>>
             ELSE path' = Erase(path, u) /\ UNCHANGED <<tree, inTree>>
        /\ UNCHANGED <<G, algo, at>>
Next == Walk \/ Start \/ Move
Spec == Init /\ [][Next]_vars
InG == tree \subseteq G
\* the partial tree is a tree on the visited nodes
Partial == /\ Cardinality(tree) = Cardinality(inTree) - 1
           /\ \A v \in inTree : Grow({v}, tree) = inTree
SimplePath == /\ \A i, j \in 1..Len(path) : path[i] = path[j] => i = j
              /\ \A i \in 1..(Len(path) - 1) : {path[i], path[i + 1]} \in G
\* determinantal description, once per graph
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
MatrixTree ==
  (tree = {} /\ path = <<>> /\ algo = "walk" /\ at = 1) =>
    LET es == SetToSeq(G)
        edges == [i \in 1..Len(es) |-> SortedSeq(es[i])]
        A == Inc(N, edges)
        rows == [i \in 1..(N - 1) |-> i]
    IN /\ \A S \in SubsetsOfSize(1..Len(edges), N - 1) :
             LET d == DetRC(A, rows, SortedSeq(S))
             IN d * d = (IF IsTree(N, edges, S) THEN 1 ELSE 0)
       /\ DetFull(Lap(A)) = Cardinality(Trees(N, edges))
====
