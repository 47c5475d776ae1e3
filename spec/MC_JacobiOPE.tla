---------------------------- MODULE MC_JacobiOPE ----------------------------
(* Conformance of MultivariateJacobiOPE with JacobiOPE.                                            *)
EXTENDS JacobiOPE, Conform
SeqRange(s) == {s[i] : i \in 1..Len(s)}
NearBy(x, y, t) == AbsI(x - y) <= t

OrderingFails(o) ==
  IF Len(o.ord) # o.n THEN {"NumberOfIndices"}
  ELSE IF o.d = 1 THEN IF \A i \in 1..o.n : o.ord[i] = <<i - 1>> THEN {} ELSE {"Ordering"}
  ELSE IF IsOrdering(o.ord, o.d) THEN {} ELSE {"Ordering"}

\* d = 1 and many points: positions i with the index found there
PositionsFails(o) ==
  IF o.len # o.n THEN {"NumberOfIndices"}
  ELSE IF \A p \in SeqRange(o.at) : p[2] = p[1] THEN {} ELSE {"Ordering"}

\* Gram matrix of the functions under the weight, and of the multiplications by each coordinate
BasisFails(o) ==
  LET n == Len(o.ord) d == Len(o.ps)
      gram == \A i, j \in 1..n : NearBy(o.G[i][j], IF i = j THEN ONE ELSE 0, 3)
      \* same entries except that of dimension t
      line(i, j, t) == \A r \in (1..d) \ {t} : o.ord[i][r] = o.ord[j][r]
      mul(i, j, t) ==
        LET x == o.X[t][i][j] k == o.ord[i][t] m == o.ord[j][t] IN
        IF ~line(i, j, t) \/ AbsI(k - m) > 1 THEN NearBy(x, 0, 3)
        ELSE IF k = m THEN NearBy(x, A(o.ps[t], k), 4)
        ELSE NearBy(Sq(x), B(o.ps[t], IF k > m THEN k ELSE m), 9)
  IN (IF gram THEN {} ELSE {"NotOrthonormal"})
     \cup (IF \A t \in 1..d : \A i, j \in 1..n : mul(i, j, t) THEN {} ELSE {"NotTheJacobiPolynomials"})

\* any parameters: orthonormal for the weight, mass as stated
OrthoFails(o) ==
  LET n == Len(o.ord) IN
  (IF \A i, j \in 1..n : NearBy(o.G[i][j], IF i = j THEN ONE ELSE 0, 2) THEN {} ELSE {"NotOrthonormal"})
  \cup (IF NearBy(o.mass_ratio, ONE, 1) /\ o.high THEN {} ELSE {"Mass"})

\* K(x, y) = sum of products; values out of 10^3, phi out of 10^3
KernelFails(o) ==
  LET dot(u, v) == Sum([i \in 1..Len(u) |-> u[i] * v[i]])
      slack(u, v) == Sum([i \in 1..Len(u) |-> AbsI(u[i]) + AbsI(v[i]) + 1])
      ok(v, u, w) == AbsI(1000 * v - dot(u, w)) <= slack(u, w) + 1000
  IN (IF Len(o.pair) = Len(o.px) /\ \A i \in 1..Len(o.px) : Len(o.pair[i]) = Len(o.py)
         /\ \A j \in 1..Len(o.py) : ok(o.pair[i][j], o.px[i], o.py[j]) THEN {} ELSE {"KernelMatrix"})
     \cup (IF Len(o.point) = Len(o.px) /\ \A i \in 1..Len(o.px) : ok(o.point[i], o.px[i], o.pz[i])
           THEN {} ELSE {"PointwiseKernel"})
     \cup (IF Len(o.diag) = Len(o.px) /\ \A i \in 1..Len(o.px) : ok(o.diag[i], o.px[i], o.px[i])
           THEN {} ELSE {"KernelDiagonal"})
     \cup (IF Len(o.self) = Len(o.px) /\ \A i \in 1..Len(o.px) : Len(o.self[i]) = Len(o.px)
             /\ \A j \in 1..Len(o.px) : ok(o.self[i][j], o.px[i], o.px[j]) THEN {} ELSE {"KernelMatrix"})

\* exponents 2a, 2b are integers; x = x4 / 4, w out of 500:  w^2 = prod (1-x)^2a (1+x)^2b
RECURSIVE PowI(_, _)
PowI(x, e) == IF e = 0 THEN 1 ELSE x * PowI(x, e - 1)
Pos(e) == IF e > 0 THEN e ELSE 0
WeightFails(o) ==
  LET num(x) == LET f == [i \in 1..Len(x) |-> PowI(2 - x[i], Pos(o.e[i][1])) * PowI(2 + x[i], Pos(o.e[i][2]))
                                             * PowI(2, Pos(-o.e[i][1]) + Pos(-o.e[i][2]))]
                IN IF Len(x) = 1 THEN f[1] ELSE f[1] * f[2]
      den(x) == LET f == [i \in 1..Len(x) |-> PowI(2 - x[i], Pos(-o.e[i][1])) * PowI(2 + x[i], Pos(-o.e[i][2]))
                                             * PowI(2, Pos(o.e[i][1]) + Pos(o.e[i][2]))]
                IN IF Len(x) = 1 THEN f[1] ELSE f[1] * f[2]
  IN IF Len(o.w) = Len(o.x) /\ \A i \in 1..Len(o.x) :
          AbsI(o.w[i] * o.w[i] * den(o.x[i]) - 250000 * num(o.x[i])) <= (2 * AbsI(o.w[i]) + 2) * den(o.x[i])
     THEN {} ELSE {"Weight"}
\* square of the mass of a weight with 2a, 2b in -1..1, out of 10^4 (pi^2 = 9.8696)
Mass1(e) ==
  CASE e = <<-1, -1>> -> 98696
    [] e = <<1, 1>> -> 24674
    [] e \in {<<-1, 1>>, <<1, -1>>} -> 98696
    [] e = <<0, 0>> -> 40000
    [] e \in {<<0, 1>>, <<1, 0>>} -> 35556
    [] e \in {<<0, -1>>, <<-1, 0>>} -> 80000
MassFails(o) ==
  LET want == IF Len(o.e) = 1 THEN Mass1(o.e[1]) ELSE (Mass1(o.e[1]) * (Mass1(o.e[2]) \div 10)) \div 1000
  IN IF AbsI((o.total * o.total) \div 100 - want) <= want \div 500 + 20 THEN {} ELSE {"Mass"}

\* the rejection constants bound the ratio of target to proposal, and are finite
BoundFails(o) ==
  IF ~o.finite THEN {"BoundNotFinite"}
  ELSE IF \A k \in 1..Len(o.c) : o.sup[k] <= o.c[k] + 2 THEN {} ELSE {"NotABound"}

\* law of the proposal given the index drawn: weights of the indices and moments of each component
ProposalFails(o) ==
  \* the mixture, when the draws could only be sampled
  IF o.pk = <<>> THEN IF \A r \in SeqRange(o.mix) :
       NearBy(r.v * Len(o.ord), MeanLin(o.ps, o.ord, r.e), (r.t + 10) * Len(o.ord)) THEN {} ELSE {"ProposalLaw"}
  ELSE
  (IF Len(o.pk) = Len(o.ord) /\ \A k \in 1..Len(o.pk) : NearBy(o.pk[k] * Len(o.ord), ONE, 20)
   THEN {} ELSE {"IndexNotUniform"})
  \cup (IF \A r \in SeqRange(o.mom) : NearBy(r.v, DiaM(o.ps, r.e, o.ord[r.k]), r.t) THEN {} ELSE {"ProposalLaw"})

SampleFails(o) ==
  (IF o.shape THEN {} ELSE {"Shape"})
  \cup (IF o.support THEN {} ELSE {"OutsideTheCube"})
  \cup (IF \A r \in SeqRange(o.mom) :
             /\ NearBy(r.lin, MeanLin(o.ps, o.ord, r.e), r.tlin + 10)
             /\ NearBy(r.sqr, MeanSqr(o.ps, o.ord, r.e), r.tsqr + 20)
        THEN {} ELSE {"SampleLaw"})

OPEFails(o) ==
  IF o.what = "refuse" THEN IF o.outcome = o.expect THEN {} ELSE
     {IF o.outcome = "ok" THEN "AcceptedInvalidCall" ELSE "Outcome_" \o o.outcome}
  ELSE IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE CASE o.what = "ordering" -> OrderingFails(o)
         [] o.what = "positions" -> PositionsFails(o)
         [] o.what = "basis" -> BasisFails(o)
         [] o.what = "ortho" -> OrthoFails(o)
         [] o.what = "kernel" -> KernelFails(o)
         [] o.what = "weight" -> WeightFails(o)
         [] o.what = "mass" -> MassFails(o)
         [] o.what = "bounds" -> BoundFails(o)
         [] o.what = "proposal" -> ProposalFails(o)
         [] o.what = "sample" -> SampleFails(o)
=============================================================================
