---------------------------- MODULE MC_ZonoModel ----------------------------
(* Design level: the optimal bases tile the zonotope (for each point X of a grid); along every   *)
(* chord a move preserves the measure with density |det A_B| on tile B.                          *)
(* Hence tile B has stationary weight |det A_B| (its density) times |det A_B| (its volume).       *)
EXTENDS Zonotope

Mats == {<<<<1, 2, 3>>>>, <<<<2, -1, 1>>>>, <<<<1, 0, 1>>, <<0, 1, 1>>>>, <<<<2, 1, 0>>, <<0, 1, 1>>>>,
         <<<<1, 0, 1, 2>>, <<0, 1, 1, -1>>>>, <<<<1, 2, 0, 1>>, <<1, 2, 1, 0>>>>,
         <<<<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, 1, 1>>>>}
Costs(n) == {C \in [1..n -> {1, 3, -2, 7}] : \A i, j \in 1..n : i # j => C[i] # C[j]}
Dirs(r) == {[i \in 1..r |-> IF i = k THEN 1 ELSE 0] : k \in 1..r} \cup {[i \in 1..r |-> 1]}
Q == 7        \* the points (7 k + 3, 7 k + 2, ...)/7-ish: never on a boundary of a tile with |det| <= 6

VARIABLES A, C, X, T
vars == <<A, C, X, T>>

Lo(M, i) == LET N == {j \in 1..Nb(M) : M[i][j] < 0} IN SumOver([j \in N |-> M[i][j]], N)
Hi(M, i) == LET P == {j \in 1..Nb(M) : M[i][j] > 0} IN SumOver([j \in P |-> M[i][j]], P)
Off(i) == IF i = 1 THEN 2 ELSE IF i = 2 THEN 3 ELSE 1
Grid(M) == {p \in [1..Rk(M) -> UNION {(Q * Lo(M, i))..(Q * Hi(M, i)) : i \in 1..Rk(M)}] :
              \A i \in 1..Rk(M) : Q * Lo(M, i) <= p[i] /\ p[i] <= Q * Hi(M, i) /\ p[i] % Q = Off(i)}
At(M, ts, p) == {t \in ts : InTile(M, t, p, Q)}

Init == /\ A \in Mats
        /\ C \in Costs(Nb(A))
        /\ Generic(A, C)
        /\ T = Tiles(A, C)
        /\ X \in {p \in Grid(A) : At(A, T, p) # {}}
\* along a direction by whole steps of the grid
Move(D, k) == LET p == [i \in 1..Rk(A) |-> X[i] + Q * k * D[i]]
              IN /\ At(A, T, p) # {}
                 /\ X' = p
                 /\ UNCHANGED <<A, C, T>>
Next == \E D \in Dirs(Rk(A)), k \in -4..4 : Move(D, k)
Spec == Init /\ [][Next]_vars

OneTile == Cardinality(At(A, T, X)) = 1
\* the chord through X is covered by the tiles without overlap: lengths add up to its extent
ChordTiled == \A D \in Dirs(Rk(A)) :
   LET iv == {i \in {Interval(A, t, X, Q, D) : t \in T} : i[1] < i[2]}
       lo == CHOOSE a \in {i[1] : i \in iv} : \A i \in iv : a <= i[1]
       hi == CHOOSE a \in {i[2] : i \in iv} : \A i \in iv : a >= i[2]
       all == [t \in T |-> Extent(Interval(A, t, X, Q, D))]
   IN Abs(SumOver(all, T) - (hi - lo)) <= 10
\* the volumes add up to the Cauchy-Binet form of the stationary weights
Weights == SumOver([t \in T |-> t.d * t.d], T) = DetFull([i \in 1..Rk(A) |-> [j \in 1..Rk(A) |->
               SumSeq([k \in 1..Nb(A) |-> A[i][k] * A[j][k]])]])
\* along every chord the measure with density |det A_B| on tile B is preserved by the move
Balance == \A D \in Dirs(Rk(A)) :
   LET len == TLCEval([t \in T |-> Extent(Interval(A, t, X, Q, D)) \div 100])
       on == {t \in T : len[t] > 0}
       law == TLCEval([t \in on |-> MoveLaw(A, T, t, X, Q, D)])
       mass(t) == Abs(t.d) * len[t]
   IN \A s \in on :
        Abs(SumOver([t \in on |-> mass(t) * (law[t][s] \div 100000)], on) - mass(s) * 1000)
          <= 2 * SumOver([t \in on |-> mass(t)], on)
LawIsOne == \A D \in Dirs(Rk(A)) :
   LET law == MoveLaw(A, T, CHOOSE t \in At(A, T, X) : TRUE, X, Q, D)
   IN Abs(SumOver(law, T) - SCALE) <= 10 /\ \A t \in T : law[t] >= 0
=============================================================================
