------------------------------ MODULE Conform ------------------------------
(* Conformance driver.  The harness has run the real code and written one record per          *)
(* observation (a call with its exact output law, a history of calls, ...).  Every             *)
(* observation is one behaviour  Pending -> Judged ; the judgement is the specification's      *)
(* own: Fails(o) is the set of names of the clauses of the property that o contradicts.        *)
(* The verdict is total: every observation reaches Judged, failing or not.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Fails(_)

Obs == JsonDeserialize(IOEnv.VP_OBS)

VARIABLES l, phase, bad
vars == <<l, phase, bad>>

Init == /\ l \in 1..Len(Obs)
        /\ phase = "pending"
        /\ bad = {}

Judge == /\ phase = "pending"
         /\ phase' = "judged"
         /\ bad' = Fails(Obs[l])
         /\ IF bad' = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([id |-> Obs[l].id, clauses |-> bad']))
         /\ UNCHANGED l

Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================
