----------------------------- MODULE MC_Blocks -----------------------------
(* The building blocks of the samplers, called on their own: elementary symmetric polynomials,  *)
(* minors and inner products, the two eigenvector selections, and the samplers that work on a   *)
(* kernel matrix directly, non symmetric or complex Hermitian included.                          *)
EXTENDS LawConform, Conform

\* ------------------------------------------------------------ polynomials, minors, products
ProdOver(v, S) == LET s == SortedSeq(S)
                      go[i \in 0..Len(s)] == IF i = 0 THEN 1 ELSE go[i - 1] * v[s[i]]
                  IN go[Len(s)]
\* e_k(v_1, ..., v_n): the sum over the subsets of size k of 1..n
Esp(v, k, n) == MapThenSumSet(LAMBDA S : ProdOver(v, S), SubsetsOfSize(1..n, k))
EspFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE IF Len(o.E) # o.size + 1 \/ \E k \in 1..Len(o.E) : Len(o.E[k]) # Len(o.v) + 1 THEN {"Shape"}
  ELSE IF \A k \in 0..o.size, n \in 0..Len(o.v) : o.E[k + 1][n + 1] = Esp(o.v, k, n)
       THEN {} ELSE {"SymmetricPolynomial"}
MinorFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE IF o.value = DetRC(o.M, [i \in 1..Len(o.S) |-> o.S[i] + 1], [i \in 1..Len(o.T) |-> o.T[i] + 1])
       THEN {} ELSE {"Minor"}
InnerFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE LET rows == Len(o.A) cols == Len(o.A[1])
           want == IF o.axis = 1
                   THEN [i \in 1..rows |-> SumSeq([k \in 1..cols |-> o.A[i][k] * o.B[i][k]])]
                   ELSE [i \in 1..cols |-> SumSeq([k \in 1..rows |-> o.A[k][i] * o.B[k][i]])]
       IN IF o.value = want THEN {} ELSE {"InnerProducts"}

\* ------------------------------------------------------------ complex projection kernels
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
RECURSIVE CDet(_, _)
\* determinant of the Gaussian integer matrix with rows M, columns c
CDet(M, c) ==
  IF M = <<>> THEN <<1, 0>>
  ELSE LET t(j) == LET x == CMul(Head(M)[c[j]], CDet(Tail(M), RemoveAt(c, j)))
                   IN IF j % 2 = 1 THEN x ELSE <<-x[1], -x[2]>>
           all == [j \in 1..Len(c) |-> t(j)]
       IN <<SumSeq([j \in 1..Len(c) |-> all[j][1]]), SumSeq([j \in 1..Len(c) |-> all[j][2]])>>
CWt(M, S) == LET d == CDet(M, SortedSeq(S)) IN d[1] * d[1] + d[2] * d[2]
CLawFails(o) ==
  LET d == Len(o.model.M)
      sup == SubsetsOfSize(1..o.model.n, d)
      norm == MapThenSumSet(LAMBDA S : CWt(o.model.M, S), sup)       \* Cauchy-Binet
      n == Len(o.law)
      good == {i \in 1..n : Items(o.law[i]) \in sup /\ Len(o.law[i].s) = d}
      pr == [i \in good |-> Prob(CWt(o.model.M, Items(o.law[i])), norm)]
  IN (IF good # 1..n THEN {"NotASetOfItems"} ELSE {})
     \cup (IF \E i \in good : Abs(o.law[i].p - pr[i]) > o.tol THEN {"WrongProbability"} ELSE {})
     \cup (IF SumOver(pr, good) < SCALE - o.tol - n - 1 THEN {"MissingOutcome"} ELSE {})

\* ------------------------------------------------------------ returned factorisations
\* the generic sampler also returns the LU factorisation of K - I_{X^c}; with K = L (q I + L)^-1
\* (K - I_{X^c}) (q I + L) = L - I_{X^c} (q I + L)
LUFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE LET n == Len(o.L)
           IL == [i \in 1..n |-> [j \in 1..n |-> o.L[i][j] + (IF i = j THEN 1 ELSE 0)]]
           inX == {o.items[i] + 1 : i \in 1..Len(o.items)}
       IN IF \A i, j \in 1..n :
               Abs(SumSeq([k \in 1..n |-> o.LU[i][k] * IL[k][j]])
                   - o.sc * (o.L[i][j] - (IF i \in inX THEN 0 ELSE IL[i][j])))
               <= SumSeq([k \in 1..n |-> Abs(IL[k][j])]) + 1
          THEN {} ELSE {"LUFactor"}
\* the Cholesky sampler also returns the factor of K_{X, X}, items in the order they were drawn
CholFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE (IF \A i, j \in 1..Len(o.KX) : /\ Abs(o.CC[i][j][1] - o.KX[i][j][1]) <= 3
                                      /\ Abs(o.CC[i][j][2] - o.KX[i][j][2]) <= 3
        THEN {} ELSE {"CholeskyFactor"})
       \cup (IF Len(o.CC) = Len(o.KX) THEN {} ELSE {"CholeskyShape"})

BlockFails(o) ==
  CASE o.what = "esp" -> EspFails(o)
    [] o.what = "minor" -> MinorFails(o)
    [] o.what = "inner" -> InnerFails(o)
    [] o.what = "law" -> CallFails(o)
    [] o.what = "claw" -> IF o.outcome # "law" THEN {"Outcome_" \o o.outcome} ELSE CLawFails(o)
    [] o.what = "lu" -> LUFails(o)
    [] o.what = "chol" -> CholFails(o)
=============================================================================
