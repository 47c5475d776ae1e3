----------------------------- MODULE MC_Trajectory -----------------------------
(* Trace specification of one MCMC call.  A recorded trajectory is replayed as a behaviour of  *)
(* the machine below: Start, then one Advance per recorded state, then Stop.  The first clause    *)
(* that the recorded behaviour contradicts ends the replay and is reported.                    *)
EXTENDS MCMCChain, Json, IOUtils

Obs == JsonDeserialize(IOEnv.VP_OBS)
VARIABLES l, i, cur, phase
vars == <<l, i, cur, phase>>
o == Obs[l]
IsSet(s) == Cardinality(SetOf(s)) = Len(s) /\ SetOf(s) \subseteq Ground(o.model)
InLaw(S) == Ok(o.model, S) /\ Wt(o.model, S) > 0

Init == /\ l \in 1..Len(Obs) /\ i = 0 /\ cur = {} /\ phase = "call"

End(clause) == /\ phase' = "end"
               /\ PrintT("VERDICT " \o ToJson([id |-> o.id, clauses |-> clause]))
               /\ UNCHANGED <<l, i, cur>>

\* ---- the clauses of each step
StartBad ==
  (IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome} ELSE
   IF Len(o.chain) = 0 THEN {"EmptyTrajectory"} ELSE
   IF ~IsSet(o.chain[1]) THEN {"NotASetOfItems"} ELSE
   IF ~InLaw(SetOf(o.chain[1])) THEN {"StartsOutsideTheSupport"} ELSE
   IF o.given /\ o.chain[1] # o.init THEN {"DoesNotStartAtTheGivenSample"} ELSE {})
StepBad(s) ==
  (IF ~IsSet(s) THEN {"NotASetOfItems"} ELSE
   IF ~Legal(o.mode, cur, SetOf(s)) THEN {"IllegalMove"} ELSE
   IF ~InLaw(SetOf(s)) THEN {"LeavesTheSupport"} ELSE {})
StopBad ==
  (IF o.tmax \in {"none", "large"} /\ Len(o.chain) # o.nb THEN {"WrongLength"} ELSE
   IF o.tmax = "tiny" /\ (Len(o.chain) > o.nb \div 2) THEN {"TimeBudgetIgnored"} ELSE
   IF o.ref # <<>> /\ (Len(o.chain) > Len(o.ref) \/ SubSeq(o.ref, 1, Len(o.chain)) # o.chain)
   THEN {"TimeBudgetChangesTheChain"} ELSE
   IF o.returned # o.chain[Len(o.chain)] THEN {"ReturnsAnotherState"} ELSE
   IF o.recorded # 1 THEN {"NotRecordedOnce"} ELSE
   IF ~o.untouched THEN {"GivenSampleModified"} ELSE {})

Start == phase = "call" /\
   IF StartBad # {} THEN End(StartBad)
   ELSE /\ phase' = "run" /\ i' = 1 /\ cur' = SetOf(o.chain[1]) /\ UNCHANGED l
Advance == phase = "run" /\ i < Len(o.chain) /\
   IF StepBad(o.chain[i + 1]) # {} THEN End(StepBad(o.chain[i + 1]))
   ELSE /\ i' = i + 1 /\ cur' = SetOf(o.chain[i + 1]) /\ UNCHANGED <<l, phase>>
Stop == phase = "run" /\ i = Len(o.chain) /\ End(StopBad)
Next == Start \/ Advance \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
