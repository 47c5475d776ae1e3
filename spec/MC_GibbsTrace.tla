---------------------------- MODULE MC_GibbsTrace ----------------------------
(* Trace specification: the conditional draws requested by a run of the real Gibbs sampler are    *)
(* replayed as visits of GibbsJacobi.  The draws are replaced by integers, so that the polynomial  *)
(* of each request is judged exactly.  beta = bn / bq; energies are multiplied by 2 bq.            *)
EXTENDS GibbsJacobi, Json, IOUtils

Obs == JsonDeserialize(IOEnv.VP_OBS)
VARIABLES l, i, av, bv, spectra, phase
vars == <<l, i, av, bv, spectra, phase>>
o == Obs[l]
Zero(n) == [j \in 1..n |-> 0]
Init == /\ l \in 1..Len(Obs) /\ i = 0 /\ spectra = <<>> /\ phase = "run"
        /\ av = Zero(Obs[l].N) /\ bv = Zero(Obs[l].N - 1)
End(clauses) == /\ phase' = "end"
                /\ PrintT("VERDICT " \o ToJson([id |-> o.id, clauses |-> clauses]))
                /\ UNCHANGED <<l, i, av, bv, spectra>>
PassLen == 2 * o.N - 1
VisitOf(k) == Visits(o.N)[((k - 1) % PassLen) + 1]
\* the requested polynomial at the abscissae o.xs
CallBad(c, k) ==
  LET v == VisitOf(k)
      E(x) == o.bn * o.N * (IF v[1] = "a" THEN CondA(o.V, av, bv, v[2], x) ELSE CondB(o.V, av, bv, v[2], x))
  IN IF c.kind # v[1] THEN {"VisitOrder"}
     ELSE (IF \E j \in 1..Len(o.xs) : c.P[j] # E(o.xs[j]) THEN {"ConditionalEnergy_" \o v[1]} ELSE {})
          \cup (IF v[1] = "b" /\ c.shape # ShapeNum(o.N, v[2], o.bn) THEN {"ConditionalShape"} ELSE {})
          \cup (IF v[1] = "a" /\ c.start # "none" /\ c.x0 # av[v[2]] THEN {"ChainDoesNotStartAtTheCurrentValue"} ELSE {})
          \cup (IF o.exact /\ c.start # "none" THEN {"NotSampledExactly"} ELSE {})
Advance == /\ phase = "run" /\ i < Len(o.calls)
           /\ LET c == o.calls[i + 1]  v == VisitOf(i + 1) IN
              IF CallBad(c, i + 1) # {} THEN End(CallBad(c, i + 1))
              ELSE /\ i' = i + 1
                   /\ av' = IF v[1] = "a" THEN With(av, v[2], c.value) ELSE av
                   /\ bv' = IF v[1] = "b" THEN With(bv, v[2], c.value) ELSE bv
                   /\ spectra' = IF (i + 1) % PassLen = 0 THEN Append(spectra, Traces(av', bv', o.deg)) ELSE spectra
                   /\ UNCHANGED <<l, phase>>
FinalBad ==
  IF ~o.seen THEN {}                     \* the draws could not be intercepted
  ELSE IF i # o.passes * PassLen THEN {"NumberOfVisits"}
  ELSE (IF o.last # spectra[Len(spectra)] THEN {"ReturnedEigenvalues"} ELSE {})
       \cup (IF o.chain # spectra THEN {"ChainOfEigenvalues"} ELSE {})
       \cup (IF ~o.maxima THEN {"ChainOfLargestEigenvalues"} ELSE {})
Stop == phase = "run" /\ i = Len(o.calls) /\ End(FinalBad)
Next == Advance \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
