---- MODULE MC_Combin ----
(* Conformance of the combinatorial samplers: exact laws and exact outputs.                      *)
EXTENDS Combin, Conform

Near(a, b, t) == Abs(a - b) <= t
\* x * y / 10^8 for fixed-point numbers x, y <= 10^8
MulFix(x, y) == LET xh == x \div 10000 xl == x % 10000 yh == y \div 10000 yl == y % 10000
                IN xh * yh + (xh * yl + xl * yh) \div 10000 + (xl * yl) \div 100000000
SumP(law) == SumSeq([i \in 1..Len(law) |-> law[i].p])
NoRepeat(law) == Cardinality({law[i].s : i \in 1..Len(law)}) = Len(law)
Total(o) == (IF ~NoRepeat(o.law) THEN {"OutcomesRepeated"} ELSE {})
            \cup (IF ~Near(SumP(o.law), SCALE, o.tol + Len(o.law)) THEN {"MassMissing"} ELSE {})

PermFails(o) ==
  LET law == o.law
      ok(e) == IsPerm([i \in 1..Len(e.s) |-> e.s[i] + 1], o.n)
  IN IF \E i \in 1..Len(law) : ~ok(law[i]) THEN {"NotAPermutation"}
     ELSE (IF \E i \in 1..Len(law) : ~Near(law[i].p, Prob(1, Fact(o.n)), o.tol)
           THEN {"NotUniform"} ELSE {})
          \cup (IF Len(law) # Fact(o.n) THEN {"MissingOutcome"} ELSE {}) \cup Total(o)

\* law of a set of positions given as weights [set -> naturals] of total W
SetLaw(o, w, W, base) ==
  LET law == o.law
      S(e) == {e.s[i] : i \in 1..Len(e.s)}
  IN IF \E i \in 1..Len(law) : ~(S(law[i]) \subseteq base) \/ Cardinality(S(law[i])) # Len(law[i].s)
     THEN {"NotASetOfPositions"}
     ELSE (IF \E i \in 1..Len(law) : \E j \in 1..(Len(law[i].s) - 1) : law[i].s[j] >= law[i].s[j + 1]
           THEN {"NotIncreasing"} ELSE {})
     \cup (IF \E i \in 1..Len(law) : ~Near(law[i].p, Prob(w[S(law[i])], W), o.tol)
           THEN {"WrongProbability"} ELSE {})
     \cup Total(o)
DescentFails(o) ==
  LET base == 1..(o.n - 1)
      ps == TLCEval(Perms(o.n))
      w == TLCEval([S \in SUBSET base |-> Cardinality({f \in ps : Descents(f) = S})])
  IN SetLaw(o, w, Fact(o.n), base)
CarriesFails(o) ==
  LET base == 1..(o.n - 1)
      ds == TLCEval([1..o.n -> 0..(o.b - 1)])
      w == TLCEval([S \in SUBSET base |-> Cardinality({f \in ds : Carries(f, o.b) = S})])
  IN SetLaw(o, w, Pow(o.b, o.n), base)
\* virtual permutations: point i is fixed with probability a / q, the others are ranked uniformly
\* above all fixed points; n positions 0..n-1
VirtualFails(o) ==
  LET base == 0..(o.n - 1)
      ps == TLCEval(Perms(o.n + 1))
      D(F, f) == {i \in base : (i + 1) \notin F /\ ((i + 2) \in F \/ f[i + 1] > f[i + 2])}
      wF(F) == Pow(o.a, Cardinality(F)) * Pow(o.q - o.a, o.n + 1 - Cardinality(F))
      w == TLCEval([S \in SUBSET base |->
             MapThenSumSet(LAMBDA F : wF(F) * Cardinality({f \in ps : D(F, f) = S}),
                           SUBSET (1..(o.n + 1)))])
  IN SetLaw(o, w, Pow(o.q, o.n + 1) * Fact(o.n + 1), base)

RSKFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  LET pq == RS(o.word, Len(o.word))
  IN (IF o.P # pq[1] THEN {"InsertionTableau"} ELSE {})
     \cup (IF o.Q # pq[2] THEN {"RecordingTableau"} ELSE {})
     \cup (IF ~o.untouched THEN {"InputModified"} ELSE {})

\* Poissonized Plancherel: P(lambda) = exp(-theta) theta^n (f_lambda / n!)^2, theta = a / q
PlancherelFails(o) ==
  LET law == o.law
      p0s == {i \in 1..Len(law) : law[i].s = <<>>}
      p0 == law[CHOOSE i \in p0s : TRUE].p
      W(p) == LET n == Size(p) f == NbSYT(p)
              IN Prob(f * f * Pow(o.a, n), Fact(n) * Fact(n) * Pow(o.q, n))
  IN IF \E i \in 1..Len(law) : ~IsPartition(law[i].s) THEN {"NotAPartition"} ELSE
     IF p0s = {} THEN {"EmptyPartitionMissing"} ELSE
     (IF \E i \in 1..Len(law) : Size(law[i].s) <= 5
            /\ ~Near(law[i].p, MulFix(p0, W(law[i].s)), o.tol + 3) THEN {"WrongProbability"} ELSE {})
     \cup (IF \E i \in 1..Len(law) : law[i].pts #
             [k \in 1..Len(law[i].s) |-> 2 * law[i].s[k] - 2 * k + 1] THEN {"PointsOfThePartition"} ELSE {})
     \cup Total(o)

\* large theta: a partition of a Poisson(theta) number, with its points; its first row and first
\* column are close to 2 sqrt(theta) (within a factor of 3/2 above, 2 sqrt(2) below)
BigPlancherelFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  IF ~IsPartition(o.part) THEN {"NotAPartition"} ELSE
  LET n == Size(o.part)
      edge(x) == x * x <= 9 * o.theta /\ 2 * x * x >= o.theta
  IN (IF (n - o.theta) * (n - o.theta) > 49 * o.theta THEN {"NotPoissonSize"} ELSE {})
     \cup (IF o.pts # [k \in 1..Len(o.part) |-> 2 * o.part[k] - 2 * k + 1]
           THEN {"PointsOfThePartition"} ELSE {})
     \cup (IF o.part = <<>> \/ ~edge(o.part[1]) \/ ~edge(Len(o.part)) THEN {"EdgesOfTheDiagram"} ELSE {})

\* one object, successive calls: the record grows by exactly the new sample, flush empties it
RecordFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  LET len[i \in 0..Len(o.ops)] == IF i = 0 THEN 0 ELSE IF o.ops[i] = "flush" THEN 0 ELSE len[i - 1] + 1
  IN (IF o.sizes # [i \in 1..Len(o.ops) |-> len[i]] THEN {"RecordLength"} ELSE {})
     \cup (IF ~o.keeps THEN {"EarlierEntriesChanged"} ELSE {})
     \cup (IF ~o.same THEN {"DependsOnHistory"} ELSE {})

\* the lines of the Young diagram, Russian convention: consecutive pairs of points are segments
LinesFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  LET p == o.part
      q == Conj(p)
      rot(x, y) == <<x - y, x + y>>
      hor == {<<rot(0, i), rot(p[i], i)>> : i \in 1..Len(p)}
      ver == {<<rot(j, 0), rot(j, q[j])>> : j \in 1..Len(q)}
      seg == {<<o.pts[2 * i - 1], o.pts[2 * i]>> : i \in 1..(Len(o.pts) \div 2)}
  IN IF seg # hor \cup ver \/ Len(o.pts) # 2 * (Len(p) + Len(q)) THEN {"DiagramLines"} ELSE {}

RaiseFails(o) == IF o.outcome = o.expect THEN {} ELSE {"Outcome_" \o o.outcome}
ValueFails(o) == IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
                 ELSE IF Near(o.v, Prob(o.num, o.den), 2) THEN {} ELSE {"WrongValue"}

\* frequencies of "item i goes to j" and "s_i < s_j" over many draws
PositionFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  IF ~o.perm THEN {"NotAPermutation"} ELSE
  IF \E i, j \in 1..o.n : \/ ~Near(o.pos[i][j], Prob(1, o.n), o.tp)
                          \/ i # j /\ ~Near(o.less[i][j], Prob(1, 2), o.tl)
  THEN {"NotUniform"} ELSE {}
IsPermFails(o) == IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
                  ELSE IF IsPerm([i \in 1..Len(o.s) |-> o.s[i] + 1], o.n) THEN {} ELSE {"NotAPermutation"}

CombinFails(o) ==
  IF o.what = "positions" THEN PositionFails(o) ELSE
  IF o.what = "isperm" THEN IsPermFails(o) ELSE
  IF o.what = "rsk" THEN RSKFails(o)
  ELSE IF o.what = "record" THEN RecordFails(o)
  ELSE IF o.what = "lines" THEN LinesFails(o)
  ELSE IF o.what = "bigplancherel" THEN BigPlancherelFails(o)
  ELSE IF o.what = "raise" THEN RaiseFails(o)
  ELSE IF o.what = "value" THEN ValueFails(o)
  ELSE IF o.outcome # "law" THEN {"Outcome_" \o o.outcome}
  ELSE CASE o.what = "perm" -> PermFails(o)
         [] o.what = "descent" -> DescentFails(o)
         [] o.what = "carries" -> CarriesFails(o)
         [] o.what = "virtual" -> VirtualFails(o)
         [] o.what = "plancherel" -> PlancherelFails(o)
====
