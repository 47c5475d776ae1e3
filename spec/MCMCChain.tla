----------------------------- MODULE MCMCChain ------------------------------
(* Markov chains on subsets of 1..n targeting a finite determinantal law.                     *)
(*                                                                                             *)
(* Design level: the three chains (add-delete, basis exchange, add-exchange-delete) are        *)
(* specified as transition *weights* (rationals num/den) from integer minors; MC_MCMC checks   *)
(* detailed balance of each on a family of kernels.                                            *)
(* Conformance: ChainFails judges the exact one-step kernel and multi-step path laws of the    *)
(* real sampler: stationarity, legal moves, irreducibility, Markov property.                   *)
EXTENDS DPPLaw, TLC

\* ---------------------------------------------------------------- fixed point
H == 10000
\* a * b / 10^8 for naturals a, b <= 10^8 (error at most 3 units)
FMul(a, b) == LET a1 == a \div H  a0 == a % H  b1 == b \div H  b0 == b % H
              IN a1 * b1 + (a1 * b0) \div H + (a0 * b1) \div H + ((a0 * b0) \div H) \div H

RECURSIVE FProd(_)
FProd(s) == IF s = <<>> THEN SCALE ELSE FMul(Head(s), FProd(Tail(s)))


\* the moves a chain may make
Legal(mode, A, B) ==
  \/ A = B
  \/ mode = "AD" /\ Cardinality(SymDiff(A, B)) = 1
  \/ mode = "E" /\ Cardinality(A) = Cardinality(B) /\ Cardinality(SymDiff(A, B)) = 2
  \/ mode = "AED" /\ \/ Cardinality(SymDiff(A, B)) = 1
                     \/ Cardinality(A) = Cardinality(B) /\ Cardinality(SymDiff(A, B)) = 2

SetOf(s) == {s[i] + 1 : i \in 1..Len(s)}

(* o.model, o.mode                                                                             *)
(* o.rows : <<[from |-> items, ok |-> BOOLEAN, law |-> <<[s |-> items, p |-> fixed point]>>]>>   *)
(* o.paths: <<[t |-> <<items, items, ...>>, p |-> fixed point]>>                                *)
P1(r, S) == SumSeq([i \in 1..Len(r.law) |-> IF SetOf(r.law[i].s) = S THEN r.law[i].p ELSE 0])

RECURSIVE Closure(_, _)
Closure(next, R) == LET R2 == R \cup UNION {next[S] : S \in R}
                    IN IF R2 = R THEN R ELSE Closure(next, R2)

ChainFails(o) ==
  IF o.outcome # "law" THEN {"Outcome_" \o o.outcome}
  ELSE
  LET m == o.model
      sup == TLCEval({S \in Support(m) : Wt(m, S) > 0})
      wt == TLCEval([S \in sup |-> Wt(m, S)])
      W == SumOver(wt, sup)
      R == 1..Len(o.rows)
      row == TLCEval([S \in sup |-> CHOOSE r \in R : SetOf(o.rows[r].from) = S])
      complete == \A S \in sup : \E r \in R : SetOf(o.rows[r].from) = S
      wellformed == \A r \in R : \A i \in 1..Len(o.rows[r].law) :
                       LET e == o.rows[r].law[i].s
                       IN Cardinality(SetOf(e)) = Len(e) /\ SetOf(e) \subseteq Ground(m)
  IN IF ~complete \/ ~wellformed THEN {"NotASetOfItems"} ELSE
  LET outside == \E r \in R : \E i \in 1..Len(o.rows[r].law) :
                     SetOf(o.rows[r].law[i].s) \notin sup /\ o.rows[r].law[i].p > 2
      illegal == \E r \in R : \E i \in 1..Len(o.rows[r].law) :
                     ~Legal(o.mode, SetOf(o.rows[r].from), SetOf(o.rows[r].law[i].s))
      badsum == \E r \in R :
                  Abs(SumSeq([i \in 1..Len(o.rows[r].law) |-> o.rows[r].law[i].p]) - SCALE) > o.tol
      p == TLCEval([S \in sup |-> [T \in sup |-> P1(o.rows[row[S]], T)]])
      \* sum_S w(S) p(S,T) = w(T), with p = hi * H + lo
      res(T) == LET hi == MapThenSumSet(LAMBDA S : wt[S] * (p[S][T] \div H), sup) - wt[T] * H
                    lo == MapThenSumSet(LAMBDA S : wt[S] * (p[S][T] % H), sup)
                IN IF Abs(hi) > 100000 THEN FALSE
                   ELSE Abs(hi * H + lo) <= o.tol * W
      \* a single state has no move to make; otherwise every state can be reached from every other
      next == [S \in sup |-> {T \in sup : p[S][T] > 2}]
      irred == \A S \in sup : Closure(next, {S}) = sup
      aper == \E S \in sup : p[S][S] > 2
      pathp(t) == FProd([i \in 1..(Len(t) - 1) |->
                     IF SetOf(t[i]) \in sup /\ SetOf(t[i + 1]) \in sup
                     THEN p[SetOf(t[i])][SetOf(t[i + 1])] ELSE 0])
      markov == \A i \in 1..Len(o.paths) : Abs(pathp(o.paths[i].t) - o.paths[i].p) <= o.ptol
  IN (IF outside THEN {"LeavesTheSupport"} ELSE {})
     \cup (IF illegal THEN {"IllegalMove"} ELSE {})
     \cup (IF badsum THEN {"NotALaw"} ELSE {})
     \cup (IF \E T \in sup : ~res(T) THEN {"NotStationary"} ELSE {})
     \cup (IF ~irred THEN {"NotIrreducible"} ELSE {})
     \cup (IF ~aper THEN {"Periodic"} ELSE {})
     \cup (IF ~markov THEN {"NotMarkov"} ELSE {})

(* ---------------------------------------------------------------- design level -------------- *)
(* Probability of moving from A to B # A as a rational <<num, den>>, accept = min(1, ratio).    *)
MinOne(num, den) == IF num >= den THEN <<1, 1>> ELSE <<num, den>>

\* w: weight (unnormalised law);  n: ground set size
StepAD(w, n, A, B) ==          \* 1/2 * 1/n * min(1, w(B)/w(A))
  LET a == MinOne(w[B], w[A]) IN <<a[1], 2 * n * a[2]>>
StepE(w, n, A, B) ==           \* 1/2 * 1/k * 1/(n-k) * min(1, w(B)/w(A))
  LET k == Cardinality(A)  a == MinOne(w[B], w[A]) IN <<a[1], 2 * k * (n - k) * a[2]>>
StepAED(w, n, A, B) ==
  LET k == Cardinality(A) IN
  IF Cardinality(B) = k + 1        \* add: 1/2 ((n-k)/n)^2 * 1/(n-k) * min(1, w(B)/w(A) (k+1)/(n-k))
  THEN LET a == MinOne(w[B] * (k + 1), w[A] * (n - k)) IN <<(n - k) * a[1], 2 * n * n * a[2]>>
  ELSE IF Cardinality(B) = k - 1   \* delete: 1/2 (k/n)^2 * 1/k * min(1, w(B)/w(A) (n-k+1)/k)
  THEN LET a == MinOne(w[B] * (n - k + 1), w[A] * k) IN <<k * a[1], 2 * n * n * a[2]>>
  ELSE \* exchange: 1/2 (k/n)((n-k)/n) * 1/k * 1/(n-k) * min(1, w(B)/w(A))
       LET a == MinOne(w[B], w[A]) IN <<a[1], 2 * n * n * a[2]>>

Step(mode, w, n, A, B) ==
  CASE mode = "AD" -> StepAD(w, n, A, B)
    [] mode = "E" -> StepE(w, n, A, B)
    [] mode = "AED" -> StepAED(w, n, A, B)

\* w(A) p(A,B) = w(B) p(B,A)
Balanced(mode, w, n, A, B) ==
  LET f == Step(mode, w, n, A, B)  b == Step(mode, w, n, B, A)
  IN w[A] * f[1] * b[2] = w[B] * b[1] * f[2]
=============================================================================
