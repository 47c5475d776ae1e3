---------------------------- MODULE MC_ObjectTrace ----------------------------
(* Trace specification: a recorded history of calls on a real FiniteDPP object is replayed as    *)
(* a behaviour of DPPObject.  o.calls[i] records call i and what was seen after it; the law of   *)
(* the last call, when o.law is present, is judged against the law of the representation.        *)
EXTENDS DPPObject, Json, IOUtils

Obs == JsonDeserialize(IOEnv.VP_OBS)
VARIABLES l, i, log, phase
vars == <<l, i, log, phase>>
o == Obs[l]
Init == l \in 1..Len(Obs) /\ i = 0 /\ log = 0 /\ phase = "run"

End(clauses) == /\ phase' = "end"
                /\ PrintT("VERDICT " \o ToJson([id |-> o.id, clauses |-> clauses]))
                /\ UNCHANGED <<l, i, log>>

CallOf(c) == Call(c.op, c.mode, c.k)
IsSample(m, s) ==
  /\ Cardinality(SetOf(s)) = Len(s) /\ SetOf(s) \subseteq Ground(m)
  /\ Ok(m, SetOf(s)) /\ Wt(m, SetOf(s)) > 0
StepBad(c) ==
  LET a == CallOf(c)
      e == Expected(o.rep, o.rank, o.model.n, a)
      newlog == LogAfter(log, a, c.outcome)
      m == CallModel(o.model, a)
  IN IF c.outcome # e /\ ~(c.outcome \in {"gave_up"} /\ a.mode \in {"vfx", "alpha"})
     THEN {IF c.outcome = "ok" THEN "AcceptedInvalidCall" ELSE "Outcome_" \o c.outcome}
     ELSE IF c.log # newlog THEN {"LogLength"}
     ELSE IF c.shown # newlog THEN {"LengthShownByInfo"}
     ELSE IF ~c.keeps THEN {"EarlierEntriesChanged"}
     ELSE IF a.op \in Sampling /\ c.outcome = "ok"
          THEN (IF ~c.last THEN {"LastEntryIsNotTheReturnedSample"} ELSE {})
               \cup (IF c.checkable /\ ~IsSample(m, c.items) THEN {"ReturnedSampleOutsideTheLaw"} ELSE {})
          ELSE {}
Advance == /\ phase = "run" /\ i < Len(o.calls)
        /\ IF StepBad(o.calls[i + 1]) # {} THEN End(StepBad(o.calls[i + 1]))
           ELSE /\ i' = i + 1
                /\ log' = LogAfter(log, CallOf(o.calls[i + 1]), o.calls[i + 1].outcome)
                /\ UNCHANGED <<l, phase>>

\* ---- the last call, its whole law
RefFails(law, ref, tol) ==
  LET keys == {Items(law[j]) : j \in 1..Len(law)} \cup {Items(ref[j]) : j \in 1..Len(ref)}
      pr(d, S) == SumOver([j \in 1..Len(d) |-> IF Items(d[j]) = S THEN d[j].p ELSE 0], 1..Len(d))
  IN IF \E S \in keys : Abs(pr(law, S) - pr(ref, S)) > 2 * tol
     THEN {"LawDiffersFromAFreshObject"} ELSE {}
\* matrices are scaled by 10^4
Row(M, r, N, c) == SumSeq([k \in 1..Len(N) |-> M[r][k] * N[k][c]])
Near(a, b, t) == Abs(a - b) <= t
Idn(n) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN 1 ELSE 0]]
KernelFails(m, op, W) ==
  LET n == m.n
      L == IF m.kind = "L" THEN m.M ELSE Gram([r \in 1..n |-> [k \in 1..Len(m.M) |-> m.M[k][r]]])
      IL == [r \in 1..n |-> [c \in 1..n |-> L[r][c] + (IF r = c THEN m.q ELSE 0)]]
      A == m.M
      bound == SumSeq([r \in 1..n |-> SumSeq([c \in 1..n |-> 1 + Abs(IF m.kind = "A" THEN 1 ELSE L[r][c])])])
  IN IF Len(W) # n THEN {"KernelShape"}
     ELSE IF op = "compute_K" /\ m.kind # "A"                   \* K (I + L) = L
     THEN IF \A r, c \in 1..n : Near(Row(W, r, IL, c), 10000 * L[r][c], bound)
          THEN {} ELSE {"CorrelationKernel"}
     ELSE IF op = "compute_L"
     THEN IF \A r, c \in 1..n : Near(m.q * W[r][c], 10000 * L[r][c], m.q)
          THEN {} ELSE {"LikelihoodKernel"}
     ELSE                                  \* K_rc det G = det G - det(G - a_c a_r^T), G = A A^T
          LET d == Len(A)
              G == Gram(A)
              D == DetFull(G)
              Sub(r, c) == DetFull([x \in 1..d |-> [y \in 1..d |-> G[x][y] - A[x][c] * A[y][r]]])
          IN IF \A r, c \in 1..n : Near(D * W[r][c], 10000 * (D - Sub(r, c)), D)
             THEN {} ELSE {"CorrelationKernel"}
Last == o.calls[Len(o.calls)]
FinalBad ==
  LET a == CallOf(Last)
  IN IF ~o.final THEN {}
     ELSE IF a.op \in {"compute_K", "compute_L"}
     THEN IF Last.outcome = "ok" THEN KernelFails(o.model, a.op, o.kernel) ELSE {}
     ELSE IF Last.outcome # "ok" \/ a.op \notin Sampling THEN {}
     ELSE IF a.op = "mcmc" THEN RefFails(o.law, o.ref, o.tol)
     ELSE LawFails([model |-> CallModel(o.model, a), law |-> o.law, tol |-> o.tol])
Stop == phase = "run" /\ i = Len(o.calls) /\ End(FinalBad)
Next == Advance \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
