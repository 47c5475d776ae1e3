----------------------------- MODULE JacobiOPE -----------------------------
(* The multivariate Jacobi orthogonal polynomial ensemble: N points in [-1, 1]^d, projection DPP   *)
(* on the span of the first N products of orthonormal Jacobi polynomials.  Multi-indices are        *)
(* ordered by layers (largest entry), lexicographically within a layer.  Multiplication by x_i in    *)
(* the orthonormal basis is the Jacobi matrix of the weight (1-x)^a (1+x)^b: diagonal A(k), squared   *)
(* off-diagonal B(k); it is rational in a and b and determines every moment below.                    *)
(* Numbers are fixed-point, ONE = 10^4.  Weights are p = [an, bn, q], a = an / q, b = bn / q.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
ONE == 10000
Mf(x, y) == (x * y) \div ONE
AbsI(x) == IF x < 0 THEN -x ELSE x

\* ---- multi-indices
RECURSIVE MaxSeq(_)
MaxSeq(k) == IF Len(k) = 1 THEN k[1] ELSE LET m == MaxSeq(Tail(k)) IN IF k[1] > m THEN k[1] ELSE m
Lex(k, m) == \E i \in 1..Len(k) : k[i] < m[i] /\ \A j \in 1..(i - 1) : k[j] = m[j]
Before(k, m) == MaxSeq(k) < MaxSeq(m) \/ (MaxSeq(k) = MaxSeq(m) /\ Lex(k, m))
Box(m, d) == [1..d -> 0..m]
\* ord is the beginning of the ordering
IsOrdering(ord, d) ==
  LET n == Len(ord) last == ord[n] box == Box(MaxSeq(last), d) IN
  /\ \A i \in 1..n : Len(ord[i]) = d /\ \A j \in 1..d : ord[i][j] >= 0
  /\ \A i \in 1..(n - 1) : Before(ord[i], ord[i + 1])
  /\ Cardinality({k \in box : Before(k, last)}) = n - 1

\* ---- recurrence coefficients of the orthonormal polynomials
A(p, k) == LET s == p.an + p.bn q == p.q IN
           IF k = 0 THEN (ONE * (p.bn - p.an)) \div (s + 2 * q)
           ELSE (ONE * (p.bn * p.bn - p.an * p.an)) \div ((2 * k * q + s) * (2 * k * q + s + 2 * q))
B(p, k) ==
  LET s == p.an + p.bn  q == p.q  t == 2 * k * q + s IN
  CASE k = 0 -> 0
    [] k = 1 -> Mf((ONE * 4 * (q + p.an) * (q + p.bn)) \div (t * t), (ONE * q) \div (t + q))
    [] OTHER -> Mf((ONE * 4 * k * q * (k * q + s)) \div (t * t),
                   (ONE * (k * q + p.an) * (k * q + p.bn)) \div ((t + q) * (t - q)))
Sq(x) == Mf(x, x)
\* squared entries of x^e in the basis, e in 0..2
Sqr(p, e, k, m) ==
  LET lo == IF k < m THEN k ELSE m  hi == IF k < m THEN m ELSE k IN
  CASE e = 0 -> IF k = m THEN ONE ELSE 0
    [] e = 1 -> IF k = m THEN Sq(A(p, k)) ELSE IF hi = lo + 1 THEN B(p, hi) ELSE 0
    [] e = 2 -> IF k = m THEN Sq(Sq(A(p, k)) + B(p, k) + B(p, k + 1))
                ELSE IF hi = lo + 1 THEN Mf(B(p, hi), Sq(A(p, lo) + A(p, hi)))
                ELSE IF hi = lo + 2 THEN Mf(B(p, lo + 1), B(p, hi)) ELSE 0
\* diagonal entries of x^e, e in 0..4
Dia(p, e, k) ==
  CASE e = 0 -> ONE
    [] e = 1 -> A(p, k)
    [] e = 2 -> Sq(A(p, k)) + B(p, k) + B(p, k + 1)
    [] e = 3 -> Mf(A(p, k), Sq(A(p, k)) + B(p, k) + B(p, k + 1))
                + Mf(B(p, k + 1), A(p, k) + A(p, k + 1))
                + (IF k = 0 THEN 0 ELSE Mf(B(p, k), A(p, k) + A(p, k - 1)))
    [] e = 4 -> Sqr(p, 2, k, k) + Sqr(p, 2, k, k + 1) + Sqr(p, 2, k, k + 2)
                + (IF k >= 1 THEN Sqr(p, 2, k, k - 1) ELSE 0) + (IF k >= 2 THEN Sqr(p, 2, k, k - 2) ELSE 0)
RECURSIVE ProdF(_)
ProdF(s) == IF s = <<>> THEN ONE ELSE Mf(Head(s), ProdF(Tail(s)))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* square of a large number
SqBig(x) == LET u == x \div ONE v == x % ONE IN u * u * ONE + 2 * u * v + (v * v) \div ONE
\* the monomial f = x^e, e a sequence of exponents: diagonal and squared entries between indices
DiaM(ps, e, k) == ProdF([i \in 1..Len(ps) |-> Dia(ps[i], e[i], k[i])])
SqrM(ps, e, k, m) == ProdF([i \in 1..Len(ps) |-> Sqr(ps[i], e[i], k[i], m[i])])
\* E sum f(x_i)  and  E (sum f(x_i))^2
MeanLin(ps, ord, e) == Sum([i \in 1..Len(ord) |-> DiaM(ps, e, ord[i])])
MeanSqr(ps, ord, e) ==
  LET n == Len(ord)  t == MeanLin(ps, ord, e)  e2 == [i \in 1..Len(e) |-> 2 * e[i]] IN
  Sum([i \in 1..n |-> DiaM(ps, e2, ord[i])]) + SqBig(t)
  - Sum([i \in 1..n |-> Sum([j \in 1..n |-> SqrM(ps, e, ord[i], ord[j])])])
=============================================================================
