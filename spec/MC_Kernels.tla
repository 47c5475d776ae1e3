----------------------------- MODULE MC_Kernels -----------------------------
(* Correlation and likelihood kernels of a finite DPP object, and which descriptions of a DPP   *)
(* are admissible.  Kernels are observed as integers scaled by o.sc; models are exact.          *)
EXTENDS DPPLaw, Conform

Rng(n) == 1..n
SumAbs(f(_), n) == SumSeq([k \in Rng(n) |-> Abs(f(k))])
\* X (d I + s M) = o.sc M up to the rounding of the entries of X, X observed
Solves(o, X, d, s, M) ==
  LET n == Len(M) IN
  \A i, j \in Rng(n) :
    LET c(k) == (IF k = j THEN d ELSE 0) + s * M[k][j]
    IN Abs(SumSeq([k \in Rng(n) |-> X[i][k] * c(k)]) - o.sc * M[i][j]) <= SumAbs(c, n) + 1
Equals(o, X, M, q) == \A i, j \in Rng(Len(M)) : Abs(q * X[i][j] - o.sc * M[i][j]) <= q
IsProjOnRows(o, X, A) ==
  LET n == Len(A[1]) d == Len(A) IN
  /\ \A i \in Rng(n), j \in Rng(d) :
       LET c(k) == A[j][k]
       IN Abs(SumSeq([k \in Rng(n) |-> X[i][k] * c(k)]) - o.sc * A[j][i]) <= SumAbs(c, n) + 1
  /\ Abs(SumSeq([i \in Rng(n) |-> X[i][i]]) - d * o.sc) <= n
  /\ \A i, j \in Rng(n) : Abs(X[i][j] - X[j][i]) <= 2
                          /\ Abs(SumSeq([k \in Rng(n) |-> X[i][k] * X[k][j]]) - o.sc * X[i][j]) <= 3 * n * o.sc
HasShape(X, n) == Len(X) = n /\ \A i \in 1..n : Len(X[i]) = n
OutFails(name, out, expect) ==
  IF expect = "error" THEN (IF out = "ok" THEN {"Accepted" \o name} ELSE {})
  ELSE IF out = expect THEN {} ELSE {name \o "_Outcome_" \o out}

KernelFails(o) ==
  LET m == o.model
      kOK == IF m.kind = "L" THEN Solves(o, o.K, m.q, 1, m.M)
             ELSE IF m.kind = "K" THEN Equals(o, o.K, m.M, m.q)
             ELSE IsProjOnRows(o, o.K, m.M)
      lOK == IF m.kind = "L" THEN Equals(o, o.L, m.M, m.q) ELSE Solves(o, o.L, m.q, -1, m.M)
  IN OutFails("K", o.outK, o.expectK) \cup OutFails("L", o.outL, o.expectL)
     \cup (IF o.outK = "ok" /\ o.expectK = "ok"
           THEN IF ~HasShape(o.K, m.n) THEN {"KernelK_Shape"} ELSE IF kOK THEN {} ELSE {"KernelK"} ELSE {})
     \cup (IF o.outL = "ok" /\ o.expectL = "ok"
           THEN IF ~HasShape(o.L, m.n) THEN {"KernelL_Shape"} ELSE IF lOK THEN {} ELSE {"KernelL"} ELSE {})
     \cup (IF o.again THEN {} ELSE {"ChangedByAnotherCall"})

\* ------------------------------------------------------------------ admissible descriptions
Square(M) == \A i \in 1..Len(M) : Len(M[i]) = Len(M)
Symm(M) == Square(M) /\ \A i, j \in 1..Len(M) : M[i][j] = M[j][i]
Mul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> SumSeq([k \in 1..Len(B) |-> A[i][k] * B[k][j]])]]
PSD(M) == \A S \in SUBSET (1..Len(M)) : Minor(M, S) >= 0
Compl(M, q) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> (IF i = j THEN q ELSE 0) - M[i][j]]]
FullRowRank(A) == Len(A) <= Len(A[1]) /\ DetFull(Gram(A)) # 0
Orthonormal(V, r) == LET G == Gram([j \in 1..Len(V[1]) |-> [i \in 1..Len(V) |-> V[i][j]]])
                     IN \A i, j \in 1..Len(G) : G[i][j] = (IF i = j THEN r * r ELSE 0)
CKeys == {"K", "K_eig_dec", "A_zono"}
LKeys == {"L", "L_eig_dec", "L_gram_factor", "L_eval_X_data"}
\* p: [key |-> ..., and the data of that key]
ParamOK(p, proj) ==
  CASE p.key \in {"K", "L"} -> Symm(p.M) /\ (proj => LET MM == Mul(p.M, p.M)
                                            IN \A i \in 1..Len(p.M) : MM[i][i] = p.q * p.M[i][i])
    [] p.key = "K_eig_dec" -> /\ \A i \in 1..Len(p.w) : IF proj THEN p.w[i] \in {0, p.q}
                                                        ELSE p.w[i] >= 0 /\ p.w[i] <= p.q
                              /\ Orthonormal(p.V, p.r)
    [] p.key = "L_eig_dec" -> /\ \A i \in 1..Len(p.w) : IF proj THEN p.w[i] \in {0, p.q} ELSE p.w[i] >= 0
                              /\ Orthonormal(p.V, p.r)
    [] p.key = "A_zono" -> FullRowRank(p.M)
    [] p.key = "L_gram_factor" -> TRUE
    [] p.key = "L_eval_X_data" -> p.callable /\ p.ndim = 2 /\ p.size > 0
    [] OTHER -> TRUE
DescOK(o) ==
  LET keys == {o.params[i].key : i \in 1..Len(o.params)}
  IN /\ o.projection \in {"true", "false"}
     /\ \/ o.type = "correlation" /\ keys \cap CKeys # {}
        \/ o.type = "likelihood" /\ keys \cap LKeys # {}
     /\ \A i \in 1..Len(o.params) : ParamOK(o.params[i], o.projection = "true" \/ "A_zono" \in keys)
\* only the eigendecomposition tells whether a symmetric matrix is a kernel
KernelOK(p) == CASE p.key = "K" -> PSD(p.M) /\ PSD(Compl(p.M, p.q))
                 [] p.key = "L" -> PSD(p.M)
                 [] OTHER -> TRUE
DescFails(o) ==
  IF ~DescOK(o) THEN (IF o.made = "ValueError" THEN {}
                      ELSE IF o.made = "ok" THEN {"AcceptedInvalidDescription"} ELSE {"Refused_" \o o.made})
  ELSE IF o.made # "ok" THEN {"RefusedValidDescription"}
  ELSE (IF o.zono /\ ~o.isproj THEN {"ZonotopeIsAProjection"} ELSE {})
       \cup (IF \A i \in 1..Len(o.params) : KernelOK(o.params[i])
             THEN (IF o.drawn = "ok" /\ o.again = "ok" THEN {} ELSE {"ValidKernelNotSampled"})
             ELSE (IF o.drawn = "ValueError" THEN {}
                   ELSE IF o.drawn = "ok" THEN {"SampledInvalidKernel"} ELSE {"Refused_" \o o.drawn})
                  \* a kernel refused once stays refused
                  \cup (IF o.again = "ok" THEN {"SampledInvalidKernelOnSecondCall"} ELSE {}))
\* calls an object cannot serve
RefuseFails(o) ==
  (IF o.outcome = o.expect THEN {} ELSE IF o.outcome = "ok" THEN {"AcceptedInvalidCall"} ELSE {"Outcome_" \o o.outcome})
  \cup (IF o.second = o.outcome THEN {} ELSE {"SecondCall_" \o o.second})
  \cup (IF o.still = "ok" THEN {} ELSE {"LaterValidCall_" \o o.still})
  \cup (IF o.kept THEN {} ELSE {"RecordChangedByARefusedCall"})

KFails(o) == CASE o.what = "kernels" -> KernelFails(o)
               [] o.what = "describe" -> DescFails(o)
               [] o.what = "refuse" -> RefuseFails(o)
=============================================================================
