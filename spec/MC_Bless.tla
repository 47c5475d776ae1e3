------------------------------ MODULE MC_Bless ------------------------------
(* Conformance of the dictionary preprocessing: the exact law of one reduction, of the first           *)
(* dictionary, and the arguments the rejection samplers build theirs with.                              *)
EXTENDS Bless, Conform

Mul(x, y) ==                                           \* product of two numbers out of SCALE
  LET xh == x \div UNIT xl == x % UNIT yh == y \div UNIT yl == y % UNIT
  IN xh * yh + (xh * yl + xl * yh) \div UNIT
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN SCALE ELSE Mul(Head(s), Prod(Tail(s)))
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
IsDict(s, n) == s # <<>> /\ Increasing(s) /\ \A i \in 1..Len(s) : s[i] \in 1..n

\* ------------------------------------------------------------------ one reduction
ReduceFails(o) ==
  IF o.outcome # "law" THEN {"Outcome_" \o o.outcome} ELSE
  LET n == Len(o.L)
      p == TLCEval([i \in 1..n |-> KeepProb(o.L, o.D, o.pn, o.pd, o.a, o.b, o.qn, o.qd, i)])
      u == TLCEval([i \in 1..n |-> UpperProb(o.L, o.a, o.b, o.qn, o.qd, i)])
      r == TLCEval([i \in 1..n |-> IF u[i] = 0 THEN 0 ELSE IF p[i] >= u[i] - 1 THEN SCALE
                                   ELSE Prob(p[i], u[i])])
      rsum(U) == SumOver(r, U)
      \* two rounds: U by the upper bounds, then the items of U; a round may fail
      go(U) == U # {} /\ rsum(U) >= SCALE
      \* a sum too close to one for floating point numbers to tell on which side it is
      tie(i) == LET e == Estimate(o.L, o.D, o.pn, o.pd, o.a, o.b, i)
                IN Abs(Quot(o.qn * e[1], o.qd * e[2], 1) - u[i]) <= 4
      close == \E U \in SUBSET (1..n) : /\ U # {} /\ Abs(rsum(U) - SCALE) < 100
                                        /\ Cardinality(U) > 1 \/ \E i \in U : rsum(U) # SCALE \/ tie(i)
      want(S) == MapThenSumSet(LAMBDA U :
                   IF go(U)
                   THEN Prod([i \in 1..n |-> IF i \in S THEN p[i]
                                ELSE IF i \in U THEN Mul(u[i], SCALE - r[i]) ELSE SCALE - u[i]])
                   ELSE 0, {S \cup T : T \in SUBSET ((1..n) \ S)})
      m == Len(o.law)
      good == {k \in 1..m : IsDict(o.law[k].s, n)}
      lost == {k \in 1..m : o.law[k].s = <<>>}
      items(k) == {o.law[k].s[j] : j \in 1..Len(o.law[k].s)}
      tol == o.tol + 40 * n * Pow(2, n)
  IN (IF good \cup lost # 1..m THEN {"NotADictionary"} ELSE {})
     \cup (IF close THEN {}
           ELSE (IF \E k \in good : Abs(o.law[k].p - want(items(k))) > tol
                 THEN {"NotIndependentDraws"} ELSE {})
                \cup (IF \E S \in SUBSET (1..n) : S # {} /\ want(S) > 2 * tol
                             /\ ~\E k \in good : items(k) = S
                      THEN {"MissingDictionary"} ELSE {}))
     \cup (IF \E k \in good : Len(o.law[k].pr) # Len(o.law[k].s) \/
                \E j \in 1..Len(o.law[k].s) : Abs(o.law[k].pr[j] - p[o.law[k].s[j]]) > 200
           THEN {"RecordedProbability"} ELSE {})
     \cup (IF \E k \in good : ~o.law[k].rows THEN {"RowsOfOtherItems"} ELSE {})
     \cup (IF \E k \in good : o.law[k].lam # (o.a * UNIT) \div o.b THEN {"Regularisation"} ELSE {})
     \cup (IF \E k \in good : o.law[k].q # (o.qn * UNIT) \div o.qd THEN {"Oversampling"} ELSE {})

\* ------------------------------------------------------------------ the first dictionary
\* regularisation lam (out of 10^4); each item on its own, the first one always
FirstFails(o) ==
  IF o.outcome # "law" THEN {"Outcome_" \o o.outcome} ELSE
  LET n == Len(o.diag)
      up(i, lam) == Quot(o.qn * o.diag[i] * UNIT, o.qd * (o.diag[i] * UNIT + lam), 40)
      u == TLCEval([i \in 1..n |-> LET x == up(i, o.lam) IN IF i = 1 \/ x > SCALE THEN SCALE ELSE x])
      m == Len(o.law)
      good == {k \in 1..m : IsDict(o.law[k].s, n)}
      items(k) == {o.law[k].s[j] : j \in 1..Len(o.law[k].s)}
      marg(S) == MapThenSumSet(LAMBDA k : IF S \subseteq items(k) THEN o.law[k].p ELSE 0, good)
      total(lam) == MapThenSumSet(LAMBDA i : up(i, lam) \div 100, 1..n)
      ten == 10 * (SCALE \div 100)
      RECURSIVE start(_)
      \* from n down, until enough items are expected, but not below the regularisation asked
      lower(lam) == IF (lam * 4) \div 5 < o.final THEN o.final ELSE (lam * 4) \div 5
      start(lam) == IF total(lam) > ten \/ lam <= o.final THEN lam ELSE start(lower(lam))
  IN (IF good # 1..m THEN {"NotADictionary"} ELSE {})
     \cup (IF \E i \in 1..n : Abs(marg({i}) - u[i]) > 30000 THEN {"FirstDictionary"} ELSE {})
     \cup (IF \E i, j \in 1..n : i < j /\ Abs(marg({i, j}) - Mul(u[i], u[j])) > 60000
           THEN {"NotIndependentDraws"} ELSE {})
     \cup (IF o.kind = "bless" /\ Abs(start(IF n * UNIT < o.final THEN o.final ELSE n * UNIT) - o.lam) > 40 THEN {"FirstRegularisation"} ELSE {})
     \cup (IF o.kind = "size" /\ Abs(o.lam * (IF o.size = 1 THEN 1 ELSE 2 * (o.size - 1)) - 2 * SumSeq(o.diag) * UNIT) > 2 * o.size
           THEN {"FirstRegularisation"} ELSE {})
     \cup (IF \E k \in good : ~o.law[k].rows THEN {"RowsOfOtherItems"} ELSE {})
     \cup (IF \E k \in good : Len(o.law[k].pr) # Len(o.law[k].s) \/
                \E j \in 1..Len(o.law[k].s) :
                   LET i == o.law[k].s[j]
                       w == IF i = 1 THEN (SCALE \div o.qd) * o.qn ELSE up(i, o.lam)
                   IN Abs(o.law[k].pr[j] - w) > 100000
           THEN {"RecordedProbability"} ELSE {})

\* ------------------------------------------------------------------ what the samplers ask for
WireFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE IF ~o.seen THEN {}
  ELSE (IF o.first # o.wantfirst THEN {"FirstStage"} ELSE {})
       \cup (IF o.oversample # o.wantoversample THEN {"SecondStageOversampling"} ELSE {})
       \cup (IF ~o.samelam THEN {"SecondStageRegularisation"} ELSE {})
       \cup (IF ~o.handedon THEN {"AnotherDictionary"} ELSE {})

BlessFails(o) ==
  CASE o.what = "reduce" -> ReduceFails(o)
    [] o.what = "first" -> FirstFails(o)
    [] o.what = "wire" -> WireFails(o)
=============================================================================
