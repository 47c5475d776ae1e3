---- MODULE MC_Beta ----
(* Conformance of the beta-ensemble samplers.  A beta-ensemble with density                       *)
(* |Delta(x)|^beta prod w(x_i) is characterised by its loop (Schwinger-Dyson) equations, one for   *)
(* every test function; the moments E[p_lambda] of the real samplers (p_k = sum_i x_i^k) must      *)
(* satisfy them.  Moments are fixed-point numbers out of 10^4, t is their own uncertainty.         *)
EXTENDS IntMat, Conform

\* ---- multisets of exponents as decreasing sequences, zeros included
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>>
             ELSE LET m == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[j] <= s[i]
                  IN <<s[m]>> \o Sorted(RemoveAt(s, m))
NonZero(s) == SelectSeq(s, LAMBDA x : x # 0)
Zeros(s) == Len(s) - Len(NonZero(s))
Deg(s) == SumSeq(s)

\* ---- linear combinations: sequences of <<coefficient, exponents>>
Mul(c, terms) == [i \in 1..Len(terms) |-> <<c * terms[i][1], terms[i][2]>>]
Times(terms, lam) == [i \in 1..Len(terms) |-> <<terms[i][1], terms[i][2] \o lam>>]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* d/dx_i of p_lam against x^(k+1):  sum_j lam_j p_{k + lam_j} p_{lam \ j}
Deriv(k, lam) == [j \in 1..Len(lam) |-> <<lam[j], <<k + lam[j]>> \o RemoveAt(lam, j)>>]
\* 2 * sum_{i<j} (x_i^(k+1) - x_j^(k+1)) / (x_i - x_j), k >= 0
Pairs(k) == IF k < 0 THEN <<>> ELSE
            [a \in 1..(k + 1) |-> <<1, <<a - 1, k - a + 1>>>>] \o <<<< -(k + 1), <<k>>>>>>
Own(k) == IF k < 0 THEN <<>> ELSE <<<<k + 1, <<k>>>>>>

\* beta = bn / bq; every equation below is multiplied by 2 bq (and by denominators)
\* interaction + own derivative + test function derivative, times 2 bq
Common(o, k, lam) ==
  Flat(<<Times(Mul(o.bn, Pairs(k)), lam), Times(Mul(2 * o.bq, Own(k)), lam),
         Mul(2 * o.bq, Deriv(k, lam))>>)

\* w = exp(-(x - mu)^2 / (2 s2)), s2 = sn / sd, mu an integer:  multiply by sn
HermiteEq(o, k, lam) ==
  Mul(o.sn, Common(o, k, lam))
  \o Mul(-2 * o.bq * o.sd, Times(<<<<1, <<k + 2>>>>, <<-o.mu, <<k + 1>>>>>>, lam))
\* w = x^(s - 1) exp(-x / th), s = an / ad, th = sn / sd
LaguerreEq(o, k, lam) ==
  Mul(o.ad * o.sn, Common(o, k, lam))
  \o Mul(2 * o.bq * o.sn * (o.an - o.ad), Times(<<<<1, <<k>>>>>>, lam))
  \o Mul(-2 * o.bq * o.sd * o.ad, Times(<<<<1, <<k + 1>>>>>>, lam))
\* w = x^(a - 1) (1 - x)^(b - 1), a = an / ad, b = cn / ad, test function x^(k+1) (1 - x)
JacobiEq(o, k, lam) ==
  Flat(<<Mul(o.ad, Common(o, k, lam)), Mul(-o.ad, Common(o, k + 1, lam)),
         Mul(2 * o.bq * (o.an - o.ad), Times(<<<<1, <<k>>>>, <<-1, <<k + 1>>>>>>, lam)),
         Mul(-2 * o.bq * (o.cn - o.ad), Times(<<<<1, <<k + 1>>>>>>, lam))>>)

\* ---- expectations
Mom(o, lam) == CHOOSE i \in 1..Len(o.mom) : o.mom[i].lam = lam
\* a moment is h + l / 10^4, its uncertainty th + tl / 10^4 (two limbs: TLC integers are 32 bit)
Lim(o, s, f, one) == LET lam == Sorted(NonZero(s))
                     IN (IF lam = <<>> THEN one ELSE o.mom[Mom(o, lam)][f]) * Pow(o.n, Zeros(s))
Small(h, lo, th, tl) ==         \* |h + lo / 10^4| <= th + tl / 10^4
  LET H == h + lo \div 10000  L == lo % 10000
      T == th + tl \div 10000  U == tl % 10000
      \* -(H + L/10^4) = (-H - 1) + (10^4 - L)/10^4
      le(x, y) == x < T \/ (x = T /\ y <= U)
  IN IF H >= 0 THEN le(H, L) ELSE IF L = 0 THEN le(-H, 0) ELSE le(-H - 1, 10000 - L)
\* terms with coefficient 0 or of too high a degree cannot be evaluated
Holds(o, terms) ==
  LET live == SelectSeq(terms, LAMBDA t : t[1] # 0)
      tot(f, one) == SumSeq([i \in 1..Len(live) |-> live[i][1] * Lim(o, live[i][2], f, one)])
      abs(f, one) == SumSeq([i \in 1..Len(live) |-> Abs(live[i][1]) * Lim(o, live[i][2], f, one)])
  IN Small(tot("h", 1), tot("l", 0), abs("th", 0), abs("tl", 1))
Lams(o) == {<<>>} \cup {o.mom[i].lam : i \in 1..Len(o.mom)}

RealFails(o) ==
  LET eqs == CASE o.kind = "hermite" -> {<<k, lam>> \in (-1..(o.deg - 2)) \X Lams(o) : k + 2 + Deg(lam) <= o.deg}
               [] OTHER -> {<<k, lam>> \in (0..(o.deg - 1)) \X Lams(o) : k + 1 + Deg(lam) <= o.deg}
      eq(k, lam) == CASE o.kind = "hermite" -> HermiteEq(o, k, lam)
                      [] o.kind = "laguerre" -> LaguerreEq(o, k, lam)
                      [] o.kind = "jacobi" -> JacobiEq(o, k, lam)
  IN (IF \E e \in eqs : ~Holds(o, eq(e[1], e[2])) THEN {"LoopEquation"} ELSE {})

\* ---- circular ensembles: moments of power sums p_1, p_2 on the unit circle; the observation
\* holds E Re p_1, E Im p_1, E|p_1|^2, E Re p_2, E Im p_2, E|p_2|^2, E Re p_2 conj(p_1)^2
Val(o, name) == LET i == CHOOSE i \in 1..Len(o.mom) : o.mom[i].name = name IN o.mom[i]
Is(o, name, num, den) == LET m == Val(o, name) IN Abs(den * m.v - 10000 * num) <= den * (m.t + 1)
CircularFails(o) ==
  LET zero == \A nm \in {"re1", "im1", "im2", "imdet"} : Is(o, nm, 0, 1)
  IN IF ~zero THEN {"NotRotationInvariant"} ELSE
     IF ~Is(o, "redet", IF o.kind = "symplectic" THEN 1 ELSE 0, 1) THEN {"Determinant"} ELSE
     CASE o.kind = "cbe" ->       \* |Delta|^beta, beta a natural number
            LET x == Val(o, "abs1") a == Val(o, "abs2") c == Val(o, "cross")
                lin(u, v, w, rhs) == Abs(u * x.v + v * a.v + w * c.v - 10000 * rhs)
                     <= Abs(u) * (x.t + 1) + Abs(v) * (a.t + 1) + Abs(w) * (c.t + 1)
            IN (IF ~Is(o, "re2", 0, 1) THEN {"NotRotationInvariant"} ELSE {})
               \cup (IF /\ lin(2 + o.bn * (o.n - 1), 0, 0, 2 * o.n)
                        /\ lin(0, 4 + o.bn * (o.n - 2), o.bn, 4 * o.n)
                        /\ lin(-4, 2, 2 + o.bn * (o.n - 1), 0)
                     THEN {} ELSE {"LoopEquation"})
       [] o.kind = "unitary" ->
            (IF Is(o, "abs1", 1, 1) /\ Is(o, "re2", 0, 1)
                /\ Is(o, "abs2", IF o.n = 1 THEN 1 ELSE 2, 1) THEN {} ELSE {"HaarMoments"})
       [] o.kind = "orthogonal" ->
            (IF Is(o, "abs1", 1, 1) /\ Is(o, "re2", 1, 1)
                /\ Is(o, "abs2", IF o.n = 1 THEN 1 ELSE 3, 1) THEN {} ELSE {"HaarMoments"})
       [] o.kind = "symplectic" ->
            (IF Is(o, "abs1", 1, 1) /\ Is(o, "re2", -1, 1)
                /\ Is(o, "abs2", IF o.n = 1 THEN 2 ELSE 3, 1) THEN {} ELSE {"HaarMoments"})
       [] o.kind = "ginibre" ->   \* |z|^2 are independent Gamma(1..N) as a set
            (IF Is(o, "abs1", o.n, 1) /\ Is(o, "re2", 0, 1) /\ Is(o, "abs2", 2 * o.n * o.n, 1)
                /\ Is(o, "rad1", o.n * (o.n + 1), 2)
                /\ Is(o, "rad2", SumSeq([k \in 1..o.n |-> k * (k + 1)]), 1)
             THEN {} ELSE {"GinibreMoments"})

MomentFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  IF ~o.count THEN {"NumberOfPoints"} ELSE
  IF ~o.support THEN {"OutsideTheSupport"} ELSE
  IF o.what = "real" THEN RealFails(o) ELSE CircularFails(o)

\* ---- bookkeeping: a history of calls on one ensemble
RECURSIVE LogLen(_, _)
LogLen(ops, i) == IF i = 0 THEN 0
                  ELSE IF ops[i].kind = "flush" THEN 0
                  ELSE LogLen(ops, i - 1) + (IF ops[i].kind = "sample" THEN 1 ELSE 0)
HistoryFails(o) ==
  LET wrong(i) ==
    LET c == o.ops[i] IN
      (IF c.outcome # c.expect THEN {IF c.outcome = "ok" THEN "AcceptedInvalidCall" ELSE "Outcome_" \o c.outcome} ELSE {})
      \cup (IF c.len # LogLen(o.ops, i) THEN {"RecordLength"} ELSE {})
      \cup (IF c.shown # c.len THEN {"LengthShown"} ELSE {})
      \cup (IF ~c.keeps THEN {"EarlierEntriesChanged"} ELSE {})
      \cup (IF ~c.last THEN {"LastEntryIsNotTheReturnedSample"} ELSE {})
      \cup (IF ~c.same THEN {"DependsOnHistory"} ELSE {})
      \cup (IF c.size # c.want THEN {"NumberOfPoints"} ELSE {})
  IN UNION {wrong(i) : i \in 1..Len(o.ops)}

\* ---- parameters shown after a call (scaled by 10^4) and normalisation of points
Rat(v, num, den) == Abs(den * v - 10000 * num) <= den
ParamFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  \* given or derived:  name, value, numerator, denominator
  IF \E i \in 1..Len(o.par) : ~o.par[i].known \/ ~Rat(o.par[i].v, o.par[i].num, o.par[i].den)
  THEN {"Parameters"} ELSE {}
\* dimension M (of the matrix model) <-> parameter of the reference measure
DimFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  \* par = beta (M - N + 1) / 2 where par, M are scaled by 10^4
  IF \E i \in 1..Len(o.dims) :
       Abs(2 * o.bq * o.dims[i].par - o.bn * (o.dims[i].m - 10000 * (o.n - 1))) > 3 * (o.bn + o.bq)
  THEN {"Dimensions"} ELSE {}
NormFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  LET ok(i) ==
    LET x == o.x[i] y == o.y[i] IN
      CASE o.kind = "hermite" ->      \* y^2 = (x - mu)^2 num / den, same sign
             /\ (y > 0) = (x > o.mu) /\ (y < 0) = (x < o.mu)
             /\ Abs(o.den * y * y - 1000000 * (x - o.mu) * (x - o.mu) * o.num) <= o.den * (3 * Abs(y) + 3)
        [] o.kind = "scale" -> Abs(o.den * y - 1000 * x * o.num) <= o.den
  IN (IF Len(o.x) # Len(o.y) \/ \E i \in 1..Len(o.x) : ~ok(i) THEN {"Normalization"} ELSE {})
     \cup (IF ~o.untouched THEN {"InputModified"} ELSE {})

BetaFails(o) ==
  CASE o.what \in {"real", "circle"} -> MomentFails(o)
    [] o.what = "params" -> ParamFails(o)
    [] o.what = "dims" -> DimFails(o)
    [] o.what = "norm" -> NormFails(o)
    [] o.what = "history" -> HistoryFails(o)
    [] o.what = "raise" -> IF o.outcome = o.expect THEN {} ELSE {"Outcome_" \o o.outcome}
====
