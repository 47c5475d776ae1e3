---------------------------- MODULE MC_Potential ----------------------------
(* The building blocks of polynomial-potential ensembles: conditional energies, the samplers of    *)
(* the conditionals, refusals, equilibrium measures.                                               *)
EXTENDS GibbsJacobi, Conform

\* ---- conditional energies returned by the code, as coefficients of x^0, x^1, ... (integers)
Horner(cf, x) == SumSeq([k \in 1..Len(cf) |-> cf[k] * Pow(x, k - 1)])
CondFails(o) ==
  LET E(x) == IF o.which = "a" THEN CondA(o.V, o.a, o.b, o.i, x) ELSE CondB(o.V, o.a, o.b, o.i, x)
      xs == {-3, -2, -1, 1, 2, 3, 4}
  IN IF \E x \in xs : Horner(o.P, x) - Horner(o.P, 0) # E(x) THEN {"ConditionalEnergy_" \o o.which} ELSE {}

\* ---- draws from x^(s-1) exp(-P(x)) on x > 0 (s = sn/2), or exp(-P) on the line (line = TRUE):
\* integration by parts against f = x^k gives
\*   E[ (s - 1 + k) x^(k-1) - P'(x) x^k ] = 0   (k >= 1 on the half line, k >= 0 on the line)
\* mom[j + 1] is E x^j out of 10^4, o.tol[k + 1] the uncertainty of equation k, both observed
M(o, j) == IF j < 0 THEN 0 ELSE o.mom[j + 1]
Parts(o, k) == (IF o.line THEN 2 * k ELSE o.sn - 2 + 2 * k) * o.q * M(o, k - 1)
               - 2 * SumSeq([j \in 1..(Len(o.P) - 1) |-> j * o.P[j + 1] * M(o, k + j - 1)])
SampleFails(o) ==
  (IF \E k \in (IF o.line THEN 0 ELSE 1)..(Len(o.tol) - 1) :
        Abs(Parts(o, k)) > o.tol[k + 1] THEN {"ConditionalLaw"} ELSE {})
  \cup (IF ~o.support THEN {"OutsideTheSupport"} ELSE {})

\* ---- one Metropolis step for exp(-V), between points x/10 and y/10: with z the normal draw that
\* proposes y from x, la the log of the acceptance probability and ls the log of |dy/dz|,
\*   -V(x) - zxy^2/2 - lsxy + laxy = -V(y) - zyx^2/2 - lsyx + layx        (10^-6 units)
V6(o, x) == SumSeq([k \in 1..Len(o.V) |-> o.V[k] * Pow(x, k) * Pow(10, 6 - k)])
BalanceFails(o) ==
  (IF Abs((o.xy.la - o.xy.ls - o.xy.hz) - (o.yx.la - o.yx.ls - o.yx.hz) - (V6(o, o.x) - V6(o, o.y))) > o.tol
   THEN {"DetailedBalance"} ELSE {})
  \cup (IF o.xy.la > 1 \/ o.yx.la > 1 THEN {"AcceptanceProbability"} ELSE {})
  \cup (IF ~o.composed THEN {"StepsDoNotCompose"} ELSE {})

\* ---- potentials and requests accepted; V[1..d], the constant term apart
Deg(o) == IF \A k \in 1..Len(o.V) : o.V[k] = 0 THEN 0
          ELSE CHOOSE k \in 1..Len(o.V) : o.V[k] # 0 /\ \A j \in (k + 1)..Len(o.V) : o.V[j] = 0
Coef(o, k) == IF k <= Len(o.V) THEN o.V[k] ELSE 0
Supported(o) == /\ o.bn > 0 /\ Deg(o) \in {2, 4, 6} /\ Coef(o, 5) = 0 /\ Coef(o, Deg(o)) > 0
ExactOk(o) == /\ Coef(o, 3) = 0 /\ Deg(o) <= 4 /\ \A k \in {2, 4} : Coef(o, k) >= 0
RefuseFails(o) ==
  LET want == IF o.exact = "no" THEN Supported(o) ELSE Supported(o) /\ ExactOk(o)
  IN IF want /\ o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
     ELSE IF ~want /\ o.outcome = "ok" THEN {"AcceptedUnsupportedPotential"}
     ELSE IF ~want /\ o.outcome # "ValueError" THEN {"Outcome_" \o o.outcome} ELSE {}

\* ---- equilibrium measures: mass one, and the large N loop equations; moments out of 10^3
\*   sum_{j<l} m_j m_{l-1-j} = int V'(x) x^l,  l = 0, 1, ...          V[k] / q
Q(o, j) == o.mom[j + 1]
Conv(o, e) == SumSeq([j \in 1..e |-> Q(o, j - 1) * Q(o, e - j)])     \* 10^6
\* 10^3 * near enough: a bound of the rounding errors of both sides
Near6(a, b, t) == Abs(a - b) <= t
ConvErr(o, e) == SumSeq([j \in 1..e |-> Abs(Q(o, j - 1)) + Abs(Q(o, e - j)) + 1])
LineLoop(o, e) ==
  LET rhs == SumSeq([k \in 1..Len(o.V) |-> k * o.V[k] * Q(o, k - 1 + e)])
      err == SumSeq([k \in 1..Len(o.V) |-> k * Abs(o.V[k])])
  IN Near6(o.q * Conv(o, e), 1000 * rhs, o.q * ConvErr(o, e) + 1000 * err)
\* Marcenko-Pastur with ratio c = cn / cd <= 1 and scale sigma^2 = s (an integer)
\*   m_l = s ( c sum_{i+j=l-1} m_i m_j + (1 - c) m_{l-1} )
MPLoop(o, e) == Near6(1000 * o.cd * Q(o, e), o.s * (o.cn * Conv(o, e) + (o.cd - o.cn) * 1000 * Q(o, e - 1)),
                      1000 * o.cd + o.s * (o.cn * ConvErr(o, e) + (o.cd - o.cn) * 1000))
\* Wachter with M1/N = an/d, M2/N = bn/d: against x^(l+1) (1-x)
WachterLoop(o, e) ==
  Near6(o.d * (Conv(o, e + 1) - Conv(o, e + 2)),
        1000 * (-(o.an - o.d) * (Q(o, e) - Q(o, e + 1)) + (o.bn - o.d) * Q(o, e + 1)),
        o.d * (ConvErr(o, e + 1) + ConvErr(o, e + 2)) + 1000 * (2 * o.an + o.bn))
DensityFails(o) ==
  LET loop(e) == CASE o.law = "line" -> LineLoop(o, e)
                   [] o.law = "mp" -> e = 0 \/ MPLoop(o, e)
                   [] o.law = "wachter" -> e + 2 >= Len(o.mom) \/ WachterLoop(o, e)
      top == CASE o.law = "line" -> Len(o.mom) - Len(o.V) [] o.law = "mp" -> Len(o.mom) - 1
               [] o.law = "wachter" -> Len(o.mom) - 3
  IN (IF Abs(Q(o, 0) - 1000) > 1 THEN {"NotAProbability"} ELSE {})
     \cup (IF \E e \in 0..top : ~loop(e) THEN {"LoopEquation"} ELSE {})
     \cup (IF o.negative THEN {"NegativeDensity"} ELSE {})
     \cup (IF o.support THEN {} ELSE {"Support"})
\* ---- cumulative distribution: mass[j] between consecutive abscissae, cdf[j] at them, out of 10^6
CdfFails(o) ==
  LET n == Len(o.mid)
      upto(j) == SumSeq([k \in 1..j |-> o.mid[k]])
  IN IF \E j \in 1..n : Abs(o.cdf[j] - upto(j)) > j + 2 THEN {"CumulativeDistribution"}
     ELSE IF Len(o.supp) # 2 \/ Len(o.supp2) # 2 \/ (\E k \in 1..2 : Abs(o.supp[k] - o.supp2[k]) > 2) THEN {"Support"} ELSE {}
\* ---- soft edge: density ~ c^(3/2)/pi sqrt(b - x), c the scale of the largest eigenvalue;
\* edge = (pi density)^2 / (b - x) and c3 = c^3, 10^-4 units; n2 = the factor N^(2/3) seen out of 10^4
EdgeFails(o) == (IF Abs(o.edge - o.c3) > 20 + o.c3 \div 200 THEN {"EdgeScale"} ELSE {})
                \cup (IF \E j \in 1..Len(o.ns) : Abs(o.n2[j] - 10000 * o.cube[j] * o.cube[j]) > 5 THEN {"EdgeRate"} ELSE {})
                \cup (IF o.atb = 0 THEN {} ELSE {"EdgeLocation"})

\* ---- Tracy-Widom (beta = 2): mean -1.77109, variance 0.81319 (units 10^-4)
TracyFails(o) == (IF Abs(o.mean + 17711) > 5 \/ Abs(o.var - 8132) > 5 THEN {"LargestEigenvalueLaw"} ELSE {})
                 \cup (IF o.low = 0 /\ o.top = 10000 /\ o.monotone THEN {} ELSE {"NotADistributionFunction"})
                 \cup (IF o.same THEN {} ELSE {"DependsOnEarlierCalls"})

PotentialFails(o) ==
  IF o.what = "refuse" THEN RefuseFails(o)
  ELSE IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE CASE o.what = "cond" -> CondFails(o)
         [] o.what = "sample" -> SampleFails(o)
         [] o.what = "balance" -> BalanceFails(o)
         [] o.what = "density" -> DensityFails(o)
         [] o.what = "cdf" -> CdfFails(o)
         [] o.what = "edge" -> EdgeFails(o)
         [] o.what = "tracy" -> TracyFails(o)
=============================================================================
