----------------------------- MODULE LawConform -----------------------------
(* Judges the exact output law of a sampler call against the determinantal law.               *)
(* o.law is a sequence of [s |-> sequence of 0-based items as returned, p |-> probability].   *)
EXTENDS DPPLaw, TLC

Items(e) == {e.s[i] + 1 : i \in 1..Len(e.s)}

LawFails(o) ==
  LET m == o.model
      norm == Norm(m)
      n == Len(o.law)
      wf == {i \in 1..n : Cardinality(Items(o.law[i])) = Len(o.law[i].s)
                          /\ Items(o.law[i]) \subseteq Ground(m)}
      ex == [i \in wf |-> P(m, Items(o.law[i]), norm)]
      distinct == {Items(o.law[i]) : i \in wf}
  IN (IF wf # 1..n THEN {"NotASetOfItems"} ELSE {})
     \cup (IF m.card # -1 /\ \E i \in 1..n : Len(o.law[i].s) # m.card
           THEN {"WrongCardinality"} ELSE {})
     \cup (IF \E i \in wf : Abs(o.law[i].p - ex[i]) > o.tol THEN {"WrongProbability"} ELSE {})
     \cup (IF Cardinality(distinct) = Cardinality(wf)
              /\ SumOver(ex, wf) < SCALE - o.tol - n - 1
           THEN {"MissingOutcome"} ELSE {})

\* outcomes of a few runs on a model too large for its law: each must be possible
SupportFails(o) ==
  LET m == o.model
      items == {Items(o.law[i]) : i \in 1..Len(o.law)} IN
  IF \E i \in 1..Len(o.law) : Cardinality(Items(o.law[i])) # Len(o.law[i].s) \/ ~(Items(o.law[i]) \subseteq Ground(m))
  THEN {"NotASetOfItems"}
  ELSE IF \E S \in items : m.card # -1 /\ Cardinality(S) # m.card THEN {"WrongCardinality"}
  ELSE IF \E S \in items : Wt(m, S) = 0 THEN {"ImpossibleSet"} ELSE {}

\* a call is expected either to return with a law, or to raise an error of a given class
CallFails(o) ==
  IF o.expect = "support"
  THEN IF o.outcome # "law" THEN {"Outcome_" \o o.outcome} ELSE SupportFails(o) ELSE
  IF o.expect = "law"
  THEN IF o.outcome # "law" THEN {"Outcome_" \o o.outcome} ELSE LawFails(o)
  ELSE IF o.outcome = "law" THEN {"AcceptedInvalidCall"}
       ELSE IF o.expect # "error" /\ o.outcome # o.expect THEN {"Outcome_" \o o.outcome} ELSE {}
=============================================================================
