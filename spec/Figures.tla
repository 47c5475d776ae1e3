------------------------------ MODULE Figures ------------------------------
(* What figures show.  An object has a record of samples and the parameters of the last call; a   *)
(* figure shows a function of the last sample and of these parameters.  Coordinates, ordinates    *)
(* and areas are integers out of U = 10^4.                                                        *)
EXTENDS IntMat

U == 10000
TWOPI == 62832
EDGE == 2000000      \* discriminants closer to 0 are not compared: ratios are truncated to 1 / U
Close(a, b, t) == Abs(a - b) <= t
\* integer square root of n < 2^31
RECURSIVE IsqrtIn(_, _, _)
IsqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN IsqrtIn(n, m, hi) ELSE IsqrtIn(n, lo, m)
Isqrt(n) == IF n <= 0 THEN 0 ELSE IsqrtIn(n, 0, 46341)
\* p * f / U without overflow, |p| < 10^8, 0 <= f <= 2 U
Times(p, f) == (((p \div 1000) * f) \div 10) + (((p % 1000) * f) \div U)
\* U exp(-t / U)
RECURSIVE ExpM(_)
ExpM(t) == IF t > 150000 THEN 0
           ELSE IF t > 1250 THEN LET h == ExpM(t \div 2) IN IF t % 2 = 0 THEN (h * h) \div U ELSE ((h * h) \div U) - h \div 100000
           ELSE U - t + (t * t) \div (2 * U) - (((t * t) \div U) * t) \div (6 * U)

\* ---------------------------------------------------------------- beta-ensembles
\* beta times the number of rows of the matrix model, for the given dimension or reference shape k
BetaM(o) == IF o.mode = "full" \/ o.given THEN o.beta * o.M ELSE 2 * o.k + o.beta * (o.N - 1)
BetaM2(o) == IF o.mode = "full" \/ o.given THEN o.beta * o.M2 ELSE 2 * o.k2 + o.beta * (o.N - 1)
\* normalised coordinate
Normal1(o, p) ==
  CASE o.ens = "Hermite" ->
         LET q == IF o.mode = "banded" THEN p - o.loc ELSE p
             s2 == IF o.mode = "banded" THEN o.s2 ELSE 2
             b == IF o.beta = 0 THEN 1 ELSE o.beta * o.N
         IN Times(q, Isqrt(200000000 \div (s2 * b)))
    [] o.ens = "Laguerre" ->
         LET s == IF o.mode = "banded" /\ ~o.given THEN o.scale ELSE 2
         IN (2 * p) \div (s * (IF o.beta = 0 THEN 1 ELSE BetaM(o)))
    [] o.ens = "Ginibre" -> Times(p, Isqrt(100000000 \div o.N))
    [] OTHER -> p
Place(o, z) == IF o.norm THEN <<Normal1(o, z[1]), Normal1(o, z[2])>> ELSE z

\* density of the limit, or of the reference law when beta = 0; -1: not compared there
Semi(x) == (Isqrt(400000000 - x * x) * U) \div TWOPI
MarPas(x, c) ==                       \* c = N / M out of U
  LET r == 4 * c * U - (x - U - c) * (x - U - c)
      den == (((c * x) \div U) * 6283) \div 1000
  IN IF Abs(x - U - c) > 40000 \/ r <= -EDGE THEN 0 ELSE IF den < 500 \/ r < EDGE THEN -1 ELSE (Isqrt(r) * U) \div den
Wachter(x, a, b) ==                   \* a = M1 / (M1 + M2), b = N / (M1 + M2) out of U
  LET sum == 2 * ((a * (U - b)) \div U + (b * (U - a)) \div U)
      r == sum * x - x * x - (a - b) * (a - b)
      den == (((((x * (U - x)) \div U) * b) \div U) * TWOPI) \div U
  IN IF r <= -EDGE THEN 0 ELSE IF den < 500 \/ r < EDGE THEN -1 ELSE (Isqrt(r) * U) \div den
GaussPdf(x) == LET y == x \div 10 IN (ExpM((y * y) \div 400) * 2821) \div U      \* variance 2
GammaPdf(x, k) ==                     \* scale 2, k = 1, 2, 3
  LET e == ExpM(x \div 2)  y == x \div 10 IN
  CASE k = 1 -> e \div 2 [] k = 2 -> (e * (y \div 10)) \div 400 [] k = 3 -> (((y * y) \div 1000) * e) \div 16000
PowU(x, n) == IF n = 0 THEN U ELSE IF n = 1 THEN x ELSE IF n = 2 THEN (x * x) \div U ELSE (((x * x) \div U) * x) \div U
BetaPdf(x, a, b) == ((PowU(x, a - 1) * PowU(U - x, b - 1)) \div U) * (Fact(a + b - 1) \div (Fact(a - 1) * Fact(b - 1)))
LimitAt(o, x) ==
  CASE o.ens = "Hermite" -> IF o.beta = 0 THEN GaussPdf(x) ELSE IF Abs(x) >= 20000 THEN 0 ELSE Semi(x)
    [] o.ens = "Laguerre" -> IF x < 0 THEN 0 ELSE IF o.beta = 0 THEN GammaPdf(x, o.k) ELSE MarPas(x, (o.N * o.beta * U) \div BetaM(o))
    [] o.ens = "Jacobi" -> IF o.beta = 0 THEN BetaPdf(x, o.k, o.k2)
                           ELSE LET s == BetaM(o) + BetaM2(o) IN Wachter(x, (BetaM(o) * U) \div s, (o.beta * o.N * U) \div s)
    [] o.ens = "Pot" -> IF Abs(x) >= 20000 THEN 0 ELSE Semi(x)
\* points of the curve across the support, close to the density
Tol(y) == 30 + Abs(y) \div 40
IsLimit(o, line, lo, hi) ==
  /\ Len(line) >= 20
  /\ \E i \in 1..Len(line) : line[i][1] <= lo
  /\ \E i \in 1..Len(line) : line[i][1] >= hi
  /\ \A i \in 1..Len(line) : LET v == LimitAt(o, line[i][1]) IN v = -1 \/ Close(line[i][2], v, Tol(v))

\* ---------------------------------------------------------------- what is shown
Same(P, R, t) == /\ Len(P) = Len(R)
                 /\ \A i \in 1..Len(P) : \E j \in 1..Len(R) : Close(P[i][1], R[j][1], t) /\ Close(P[i][2], R[j][2], t)
                 /\ \A i \in 1..Len(R) : \E j \in 1..Len(P) : Close(R[i][1], P[j][1], t) /\ Close(R[i][2], P[j][2], t)
ShowsPoints(fig, P, t) == \E k \in 1..Len(fig.scat) : Same(P, fig.scat[k].xy, t)
\* bars <<left, right, area out of U>> of a histogram of the values v with weights w (positive)
IsHistogram(bars, v, w) ==
  LET first == bars[1][1]  end == bars[Len(bars)][2]
      Inside == {i \in 1..Len(v) : first - 2 <= v[i] /\ v[i] <= end + 2}
      tot == SumOver(w, Inside)
      sure(b) == {i \in Inside : b[1] + 2 < v[i] /\ v[i] < b[2] - 2}
      may(b) == {i \in Inside : b[1] - 2 <= v[i] /\ v[i] <= b[2] + 2}
  IN /\ Len(bars) > 0
     /\ \A k \in 1..(Len(bars) - 1) : Close(bars[k][2], bars[k + 1][1], 2)
     /\ \A k \in 1..Len(bars) : LET b == bars[k] IN
          /\ b[3] * tot >= SumOver(w, sure(b)) * U - 4 * tot
          /\ b[3] * tot <= SumOver(w, may(b)) * U + 4 * tot
     /\ (Inside = {} \/ Close(SumSeq([k \in 1..Len(bars) |-> bars[k][3]]), U, 40))
Ones(n) == [i \in 1..n |-> 1]
=============================================================================
