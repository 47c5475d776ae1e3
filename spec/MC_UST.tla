---- MODULE MC_UST ----
(* Conformance of the spanning tree samplers and of the UST object.                               *)
EXTENDS Graphs, Conform
Near(a, b, t) == Abs(a - b) <= t
Fix(o) == [i \in 1..Len(o.edges) |-> <<o.edges[i][1] + 1, o.edges[i][2] + 1>>]
Idx(s) == {s[i] + 1 : i \in 1..Len(s)}

UstLawFails(o) ==
  IF o.outcome # "law" THEN {"Outcome_" \o o.outcome} ELSE
  LET E == TLCEval(Fix(o))
      T == TLCEval(Trees(o.n, E))
      law == o.law
      p == Prob(1, Cardinality(T))
      sets == {Idx(law[i].s) : i \in 1..Len(law)}
  IN (IF \E i \in 1..Len(law) : Idx(law[i].s) \notin T \/ Cardinality(Idx(law[i].s)) # Len(law[i].s)
      THEN {"NotASpanningTree"} ELSE {})
     \cup (IF \E i \in 1..Len(law) : Idx(law[i].s) \in T /\ ~Near(law[i].p, p, o.tol)
           THEN {"NotUniform"} ELSE {})
     \cup (IF p > o.tol /\ ~(T \subseteq sets) THEN {"MissingTree"} ELSE {})

\* large graphs: every draw is a spanning tree; when the graph has a single cycle its trees are the
\* complements of the edges whose removal leaves it connected, and the draws are even among them
\* (a bound of about seven standard deviations: (x - N/t)^2 <= 49 N/t)
UstLargeFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  LET E == TLCEval(Fix(o))
      m == Len(E)
      sets == [i \in 1..Len(o.trees) |-> Idx(o.trees[i])]
      all == {(1..m) \ {i} : i \in {i \in 1..m : IsTree(o.n, E, (1..m) \ {i})}}
      seen(T) == SumSeq([i \in 1..Len(sets) |-> IF sets[i] = T THEN o.counts[i] ELSE 0])
      t == Cardinality(all)
  IN (IF \E i \in 1..Len(sets) : ~(sets[i] \subseteq 1..m) \/ Cardinality(sets[i]) # Len(o.trees[i])
                                 \/ ~IsTree(o.n, E, sets[i])
      THEN {"NotASpanningTree"} ELSE {})
     \cup (IF o.len # o.draws THEN {"RecordLength"} ELSE {})
     \cup (IF o.uniform THEN IF \E T \in all : LET x == t * seen(T) - o.draws
                                               IN x * x > 49 * o.draws * t
                             THEN {"NotUniform"} ELSE {}
           ELSE {})

\* transfer current kernel, up to the orientation of the edges
UstKernelFails(o) ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
  LET E == Fix(o)
      m == Len(E)
      A == Inc(o.n, E)
      D == TLCEval(DetFull(Lap(A)))
      num == TLCEval([r \in 1..m |-> [c \in 1..m |-> KernelNum(A, r, c)]])
      signs == {s \in [1..m -> {-1, 1}] : s[1] = 1}
  IN IF Len(o.K) # m THEN {"KernelShape"}
     ELSE IF \E s \in signs : \A r, c \in 1..m :
               Near(D * o.K[r][c], 10000 * s[r] * s[c] * num[r][c], D)
     THEN {} ELSE {"TransferCurrent"}

\* one object, successive calls
RECURSIVE LenAfter(_, _)
LenAfter(ops, i) == IF i = 0 THEN 0
                    ELSE IF ops[i].kind = "flush" THEN 0
                    ELSE LenAfter(ops, i - 1) + (IF ops[i].kind = "sample" THEN 1 ELSE 0)
UstHistFails(o) ==
  LET wrong(i) ==
    LET c == o.ops[i] IN
      (IF c.outcome # (IF c.kind = "invalid" THEN "ValueError" ELSE "ok")
       THEN {IF c.outcome = "ok" THEN "AcceptedInvalidMode" ELSE "Outcome_" \o c.outcome} ELSE {})
      \cup (IF c.len # LenAfter(o.ops, i) THEN {"RecordLength"} ELSE {})
      \cup (IF ~c.keeps THEN {"EarlierEntriesChanged"} ELSE {})
      \cup (IF ~c.same THEN {"DependsOnHistory"} ELSE {})
      \cup (IF c.kind = "sample" /\ c.outcome = "ok" /\ ~IsTree(o.n, Fix(o), Idx(c.tree))
            THEN {"NotASpanningTree"} ELSE {})
  IN UNION {wrong(i) : i \in 1..Len(o.ops)}

UstFails(o) == CASE o.what = "law" -> UstLawFails(o)
                 [] o.what = "kernel" -> UstKernelFails(o)
                 [] o.what = "large" -> UstLargeFails(o)
                 [] o.what = "history" -> UstHistFails(o)
                 [] o.what = "raise" -> IF o.outcome = o.expect THEN {} ELSE {"Outcome_" \o o.outcome}
====
