--------------------------- MODULE MC_BlessTrace ---------------------------
(* Trace specification of one run of bless or bless_size.  The machine holds the regularisation and   *)
(* size of the current dictionary and, for bless_size, the bracket [lmin, lmax] of regularisations      *)
(* found so far.  A run: Start, one Reduce per reduction recorded, Stop.                                *)
(* Regularisations are out of 10^3, probabilities out of 10^8.                                          *)
EXTENDS Bless, Json, IOUtils

Obs == JsonDeserialize(IOEnv.VP_OBS)
VARIABLES l, j, lam, old, lmax, lmin, full, phase
vars == <<l, j, lam, old, lmax, lmin, full, phase>>
o == Obs[l]
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Init == /\ l \in 1..Len(Obs) /\ j = 0 /\ lam = 0 /\ old = 0 /\ lmax = 0 /\ lmin = 0
        /\ full = FALSE /\ phase = "call"
End(clause) == /\ phase' = "end"
               /\ PrintT("VERDICT " \o ToJson([id |-> o.id, clauses |-> clause]))
               /\ UNCHANGED <<l, j, lam, old, lmax, lmin, full>>

\* sizes are compared as numbers of items times 2 qd against q times sizes:  m / q <= (size - 1) / 2
Small(m) == 2 * m * o.qd <= (o.size - 1) * o.qn
AtLeastHalf(m) == 2 * m * o.qd >= (o.size - 1) * o.qn
Large(m) == m * o.qd >= 2 * (o.size + 1) * o.qn

DictBad(s) ==
  IF ~(s.idx # <<>> /\ Increasing(s.idx) /\ \A k \in 1..Len(s.idx) : s.idx[k] \in 1..Len(o.diag))
  THEN {"NotADictionary"}
  ELSE IF ~s.rows THEN {"RowsOfOtherItems"}
  ELSE IF Len(s.probs) # Len(s.idx) THEN {"RecordedProbability"} ELSE {}
StartBad ==
  IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE IF o.steps = <<>> THEN {}
  ELSE DictBad(o.start) \cup
       (IF o.kind = "size" /\ Abs(o.start.lam * (IF o.size = 1 THEN 1 ELSE 2 * (o.size - 1)) - 2 * SumSeq(o.diag) * 1000) > 2 * o.size
        THEN {"FirstRegularisation"} ELSE {})
StepBad(s) ==
  (IF ~s.handedon THEN {"AnotherDictionary"} ELSE {})
  \cup DictBad(s)
  \cup (IF s.q # o.start.q THEN {"Oversampling"} ELSE {})
  \cup (IF s.asked # s.lam THEN {"Regularisation"} ELSE {})
  \cup (IF s.lam > lam THEN {"RegularisationIncreases"} ELSE {})
  \cup (IF full THEN {"GoesOnThoughLargeEnough"} ELSE {})
  \* a geometric sequence of nb terms from the first regularisation to the last one
  \cup (IF j >= 2 /\ Abs(lam * lam - o.lams[j - 1] * s.lam) > 3 * (lam + o.lams[1]) THEN {"NotGeometric"} ELSE {})
  \cup (IF DictBad(s) = {} /\ \E k \in 1..Len(s.idx) :
             LET x == o.diag[s.idx[k]]
                 u == Quot(o.qn * x * 1000, o.qd * (x * 1000 + s.lam), 1)
             IN s.probs[k] <= 0 \/ s.probs[k] > u + 200000
        THEN {"RecordedProbability"} ELSE {})
\* terms of the geometric sequence: those asked, or by default log n rounded up, at least two
Terms == IF o.nb # 0 THEN o.nb ELSE IF Len(o.diag) <= 7 THEN 2 ELSE IF Len(o.diag) <= 20 THEN 3 ELSE 4
StopBad ==
  IF o.steps = <<>> THEN {} ELSE
  (IF ~o.returnslast THEN {"ReturnsAnotherDictionary"} ELSE {})
  \cup (IF ~full /\ Len(o.steps) # Terms - 1 THEN {"NumberOfReductions"} ELSE {})
  \cup (IF ~full /\ Abs(lam - o.final) > 1 THEN {"FinalRegularisation"} ELSE {})
  \cup (IF o.kind = "size" /\ (Abs(o.lmax - lmax) > 1 \/ Abs(o.lmin - lmin) > 1) THEN {"Bracket"} ELSE {})

Start == phase = "call" /\
  IF StartBad # {} THEN End(StartBad)
  ELSE /\ phase' = "run" /\ j' = 1 /\ UNCHANGED l
       /\ lam' = (IF o.steps = <<>> THEN 0 ELSE o.start.lam)
       /\ old' = -1                          \* nothing estimated yet: size - 1, larger than half of it
       /\ lmax' = (IF o.steps = <<>> THEN 0 ELSE o.start.lam)
       /\ lmin' = 1000 /\ full' = FALSE
Reduce == phase = "run" /\ j <= Len(o.steps) /\
  LET s == o.steps[j] IN
  IF StepBad(s) # {} THEN End(StepBad(s))
  ELSE /\ j' = j + 1 /\ lam' = s.lam /\ old' = Len(s.idx)
       /\ lmax' = (IF o.kind = "size" /\ old >= 0 /\ Small(old) /\ AtLeastHalf(Len(s.idx)) THEN lam ELSE lmax)
       /\ full' = (o.kind = "size" /\ Large(Len(s.idx)))
       /\ lmin' = (IF full' THEN s.lam ELSE lmin)
       /\ UNCHANGED <<l, phase>>
Stop == phase = "run" /\ j = Len(o.steps) + 1 /\ End(StopBad)
Next == Start \/ Reduce \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
