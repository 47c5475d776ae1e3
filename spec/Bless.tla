------------------------------- MODULE Bless -------------------------------
(* Leverage score dictionaries (BLESS).  The data are the n items of an integer likelihood         *)
(* matrix L; a dictionary is a set of items D with a probability p_i for each, a regularisation     *)
(* lambda = a / b and an oversampling factor q.                                                      *)
(*   Estimate(i) = (L_ii - L_iD (L_DD + lambda' diag p)^-1 L_Di) / lambda'                           *)
(* is the ridge leverage score of i at lambda' as estimated from the dictionary; by Schur            *)
(* complements it is a quotient of two integer determinants, and it is the exact leverage score       *)
(* when D holds every item with probability one.                                                      *)
(* A reduction to lambda' <= lambda draws the next dictionary: every item is kept, independently of    *)
(* the others, with probability  p'_i = min(q Estimate(i), q L_ii / (L_ii + lambda'), 1)  and is        *)
(* recorded with that same probability.  It may fail (too few items), in which case it says so.        *)
EXTENDS IntMat, TLC

UNIT == 10000                                          \* probabilities of the law, out of 10^4
\* dictionaries: D sequence of items, pn numerators of the probabilities over the common pd
Border(L, D, pn, pd, a, b, i) ==
  LET m == Len(D)
      c == b * pd
      core == [r \in 1..m |-> [s \in 1..m |-> c * L[D[r]][D[s]] + (IF r = s THEN a * pn[r] ELSE 0)]]
      row0 == [s \in 1..(m + 1) |-> IF s = 1 THEN c * L[i][i] ELSE c * L[i][D[s - 1]]]
      full == [r \in 1..(m + 1) |-> IF r = 1 THEN row0
                 ELSE [s \in 1..(m + 1) |-> IF s = 1 THEN c * L[D[r - 1]][i] ELSE core[r - 1][s - 1]]]
  IN <<DetFull(full), DetFull(core)>>

\* x / y as a natural out of SCALE, capped at top * SCALE
Quot(x, y, top) == IF x >= top * y THEN top * SCALE ELSE Prob(x, y)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

Estimate(L, D, pn, pd, a, b, i) ==                     \* q-free, as a fraction <<num, den>>
  LET d == Border(L, D, pn, pd, a, b, i)
  IN <<b * d[1], b * pd * a * d[2]>>
\* upper bound of the leverage score
Bound(L, a, b, i) == <<b * L[i][i], b * L[i][i] + a>>

\* the probability of item i, for the oversampling factor qn / qd; out of SCALE
KeepProb(L, D, pn, pd, a, b, qn, qd, i) ==
  LET e == Estimate(L, D, pn, pd, a, b, i)
      u == Bound(L, a, b, i)
  IN Least({SCALE, Quot(qn * e[1], qd * e[2], 1), Quot(qn * u[1], qd * u[2], 1)})
UpperProb(L, a, b, qn, qd, i) ==
  LET u == Bound(L, a, b, i) IN Least({SCALE, Quot(qn * u[1], qd * u[2], 1)})

\* ---- consequences of the definition, model-checked (MC_BlessModel)
\* with every item at probability one the estimate is the exact leverage score (L (L + lambda I)^-1)_ii
Exact(L, a, b, i) ==
  LET n == Len(L)
      M == [r \in 1..n |-> [s \in 1..n |-> b * L[r][s] + (IF r = s THEN a ELSE 0)]]
      \* 1 - lambda ((L + lambda I)^-1)_ii = 1 - a cof / det
      rest == [k \in 1..(n - 1) |-> IF k < i THEN k ELSE k + 1]
  IN <<DetFull(M) - a * DetRC(M, rest, rest), DetFull(M)>>
=============================================================================
