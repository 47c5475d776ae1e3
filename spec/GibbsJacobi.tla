---------------------------- MODULE GibbsJacobi ----------------------------
(* The Gibbs sampler on Jacobi (tridiagonal) matrices for a beta-ensemble with polynomial         *)
(* potential V(x) = sum_m V[m] x^m.  The joint law of the coefficients a_1..a_N, b_1..b_(N-1)     *)
(* (b_i the squared off-diagonal entries) is                                                       *)
(*      prod_i b_i^(beta/2 (N-i) - 1)  exp( - beta/2 N  trace V(T(a, b)) )                          *)
(* and one pass visits a_1, b_1, a_2, ..., b_(N-1), a_N, drawing each from its law given the       *)
(* others.  The conditional energy of a coordinate is a difference of traces: the definition,     *)
(* against which the closed forms in the code are judged.                                          *)
EXTENDS IntMat, TLC

\* trace of T^m by transfer: W[r][c] = entries of T^m, T with sub-diagonal b and super-diagonal 1
Tri(a, b) == [r \in 1..Len(a) |-> [c \in 1..Len(a) |->
                IF r = c THEN a[r] ELSE IF c = r + 1 THEN 1 ELSE IF r = c + 1 THEN b[c] ELSE 0]]
TMul(A, T) == [r \in 1..Len(A) |-> [c \in 1..Len(A) |->
                SumSeq([j \in 1..Len(A) |-> A[r][j] * T[j][c]])]]
RECURSIVE TracesFrom(_, _, _)
\* <<tr A, tr A T, ..., tr A T^k>>
TracesFrom(A, T, k) == <<SumSeq([r \in 1..Len(A) |-> A[r][r]])>>
                       \o (IF k = 0 THEN <<>> ELSE TracesFrom(TLCEval(TMul(A, T)), T, k - 1))
Traces(a, b, k) == LET T == TLCEval(Tri(a, b)) IN TracesFrom(T, T, k - 1)      \* tr T, ..., tr T^k
TrV(V, a, b) == LET t == TLCEval(Traces(a, b, Len(V))) IN SumSeq([m \in 1..Len(V) |-> V[m] * t[m]])

With(s, i, x) == [s EXCEPT ![i] = x]
CondA(V, a, b, i, x) == TrV(V, With(a, i, x), b) - TrV(V, With(a, i, 0), b)
CondB(V, a, b, i, x) == TrV(V, a, With(b, i, x)) - TrV(V, a, With(b, i, 0))

\* the visits of a pass
Visits(N) == [j \in 1..(2 * N - 1) |-> IF j % 2 = 1 THEN <<"a", (j + 1) \div 2>> ELSE <<"b", j \div 2>>]
\* beta/2 (N - i), as a numerator over 2 * (denominator of beta)
ShapeNum(N, i, bn) == bn * (N - i)
=============================================================================
