--------------------------- MODULE MC_BlessModel ---------------------------
(* Checks of the dictionary machine on all small Gram matrices: a run reduces lambda step by step,   *)
(* the dictionary being any set of items with probability one.  The estimates are always between the   *)
(* exact leverage score and the upper bound, equal to the former for the full dictionary, and decrease  *)
(* when the dictionary grows.                                                                            *)
EXTENDS Bless
CONSTANTS N, Entries
EntriesDef == {-1, 0, 2}
EntriesQuick == {-1, 2}
VARIABLES B, D, lam
vars == <<B, D, lam>>
L == [i \in 1..N |-> [j \in 1..N |-> SumSeq([k \in 1..Len(B) |-> B[k][i] * B[k][j]])]]
Ones(S) == [k \in 1..Cardinality(S) |-> 1]
Est(S, i) == Estimate(L, SortedSeq(S), Ones(S), 1, lam, 1, i)
LeqFrac(x, y) == x[1] * y[2] <= y[1] * x[2]
EqFrac(x, y) == x[1] * y[2] = y[1] * x[2]

Init == /\ B \in [1..2 -> [1..N -> Entries]]
        /\ D \in {{1}, {2}} /\ lam = 3
Reduce == /\ lam > 1 /\ lam' = lam - 1
          /\ D' \in (SUBSET (1..N)) \ {{}}
          /\ UNCHANGED B
Next == Reduce
Spec == Init /\ [][Next]_vars
Between == \A i \in 1..N : /\ LeqFrac(Exact(L, lam, 1, i), Est(D, i))
                           \* at most L_ii / lambda; the cap by the upper bound is the code's own
                           /\ LeqFrac(Est(D, i), <<L[i][i], lam>>)
                           /\ LeqFrac(Exact(L, lam, 1, i), Bound(L, lam, 1, i))
FullIsExact == D = 1..N => \A i \in 1..N : EqFrac(Exact(L, lam, 1, i), Est(D, i))
Monotone == \A i, j \in 1..N : LeqFrac(Est(D \cup {j}, i), Est(D, i))
=============================================================================
