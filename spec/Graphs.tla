-------------------------------- MODULE Graphs --------------------------------
(* Finite undirected graphs on nodes 1..n given by their sequence of edges, spanning trees, the  *)
(* incidence matrix and the transfer current kernel.                                             *)
EXTENDS IntMat, TLC

RECURSIVE Grow(_, _)
Grow(V, E) == LET W == V \cup {v \in UNION E : \E e \in E : v \in e /\ e \cap V # {}}
              IN IF W = V THEN V ELSE Grow(W, E)
Connected(n, E) == n >= 1 /\ Grow({1}, E) = 1..n
\* edges as sets of nodes, by index; self-loops are singletons
EdgeSet(edges, S) == {{edges[i][1], edges[i][2]} : i \in S}
IsTree(n, edges, S) == Cardinality(S) = n - 1 /\ Connected(n, EdgeSet(edges, S))
Trees(n, edges) == {S \in SubsetsOfSize(1..Len(edges), n - 1) : IsTree(n, edges, S)}

\* oriented incidence matrix without its last row
Inc(n, edges) == [v \in 1..(n - 1) |-> [i \in 1..Len(edges) |->
                    IF edges[i][1] = edges[i][2] THEN 0
                    ELSE IF edges[i][1] = v THEN 1 ELSE IF edges[i][2] = v THEN -1 ELSE 0]]
Lap(A) == [r \in 1..Len(A) |-> [c \in 1..Len(A) |->
             SumSeq([k \in 1..Len(A[1]) |-> A[r][k] * A[c][k]])]]
\* det G * K[r][c] where K = A^T G^-1 A, G = A A^T
KernelNum(A, r, c) ==
  LET d == Len(A) G == Lap(A)
  IN DetFull(G) - DetFull([x \in 1..d |-> [y \in 1..d |-> G[x][y] - A[x][c] * A[y][r]]])
=============================================================================
