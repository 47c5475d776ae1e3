------------------------------- MODULE DPPLaw -------------------------------
(* The finite determinantal laws, from exact integer data (ground set 1..N).                  *)
(*   "L" : L = M / q positive semi-definite      P(S) prop. to det L_S                        *)
(*   "B" : L = B^T B, B = M an integer d x N factor (d may be far below N)                     *)
(*   "K" : K = M / q, 0 <= K <= I                P(S) = |det(K - I_{S^c})|                     *)
(*   "A" : K = A^T (A A^T)^-1 A, A of full row rank d    P(S) = det(A_S)^2 / det(A A^T)        *)
(* `card` restricts the law to subsets of that size (k-DPP); -1 leaves it free.                *)
EXTENDS IntMat

Ground(m) == 1..m.n

ColDot(B, i, j) == SumSeq([k \in 1..Len(B) |-> B[k][i] * B[k][j]])
GramMinor(B, S) ==                                      \* det (B^T B)_S
  LET s == SortedSeq(S)
      id == [i \in 1..Len(s) |-> i]
  IN IF Len(s) > Len(B) THEN 0
     ELSE DetRC([i \in 1..Len(s) |-> [j \in 1..Len(s) |-> ColDot(B, s[i], s[j])]], id, id)
Gram(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |->
              SumSeq([k \in 1..Len(A[1]) |-> A[i][k] * A[j][k]])]]

Wt(m, S) ==
  CASE m.kind = "B" -> GramMinor(m.M, S)
    [] m.kind = "M" -> Minor(m.M, S)        \* L = M / q, only for a fixed cardinality
    [] m.kind = "L" -> Minor(m.M, S) * Pow(m.q, m.n - Cardinality(S))
    [] m.kind = "K" ->
         Abs(DetFull([i \in 1..m.n |-> [j \in 1..m.n |->
              IF i = j /\ i \notin S THEN m.M[i][i] - m.q ELSE m.M[i][j]]]))
    [] m.kind = "A" ->
         IF Cardinality(S) # Len(m.M) THEN 0
         ELSE LET d == DetRC(m.M, [i \in 1..Len(m.M) |-> i], SortedSeq(S)) IN d * d

\* total weight
SumWt(m, T) == MapThenSumSet(LAMBDA S : Wt(m, S), T)

\* every set that can have positive weight: an item whose column is zero belongs to none
Live(m) == IF m.kind \in {"A", "B"}
           THEN {i \in Ground(m) : \E k \in 1..Len(m.M) : m.M[k][i] # 0} ELSE Ground(m)
Support(m) == IF m.card >= 0 THEN SubsetsOfSize(Live(m), m.card)
              ELSE IF m.kind = "A" THEN SubsetsOfSize(Live(m), Len(m.M))
              ELSE SUBSET Live(m)

\* closed forms of the normalisation constants, where there is one
Norm(m) ==
  IF m.kind = "A" /\ (m.card = -1 \/ m.card = Len(m.M)) THEN DetFull(Gram(m.M))
  ELSE IF m.kind = "K" /\ m.card = -1 THEN Pow(m.q, m.n)
  ELSE IF m.kind = "B" /\ m.card = -1
       THEN DetFull([i \in 1..Len(m.M) |-> [j \in 1..Len(m.M) |->
                     Gram(m.M)[i][j] + (IF i = j THEN 1 ELSE 0)]])
  ELSE IF m.kind = "L" /\ m.card = -1
       THEN DetFull([i \in 1..m.n |-> [j \in 1..m.n |->
                     m.M[i][j] + (IF i = j THEN m.q ELSE 0)]])
  ELSE SumWt(m, Support(m))

Ok(m, S) == /\ S \subseteq Ground(m)
            /\ m.card = -1 \/ Cardinality(S) = m.card

P(m, S, norm) == Prob(Wt(m, S), norm)
=============================================================================
