---------------------------- MODULE MC_StreamTrace ----------------------------
(* Trace specification for Streams and for the frame condition of every call.  A trace is a       *)
(* sequence of steps [op, call, kind, outcome, result, G, A, B, args, err]: `result` a digest of    *)
(* what the call returned, G, A, B digests of the three shared generators after the step, args     *)
(* and err whether the arguments and numpy's error handling are as before the step.                *)
EXTENDS Streams, IOUtils
Obs == JsonDeserialize(IOEnv.VP_OBS)
VARIABLES l, i, memo, dig, phase
tvars == <<l, i, tok, hist, memo, dig, phase>>
o == Obs[l]
TInit == /\ l \in 1..Len(Obs) /\ i = 0 /\ tok = Start /\ hist = <<>> /\ memo = {} /\ phase = "run"
         /\ dig = [G |-> Obs[l].G, A |-> Obs[l].A, B |-> Obs[l].B]
End(clauses) == /\ phase' = "end"
                /\ PrintT("VERDICT " \o ToJson([id |-> o.id, clauses |-> clauses]))
                /\ UNCHANGED <<l, i, tok, hist, memo, dig>>
\* entries of memo: <<"result", call, token, digest>> and <<"state", token, digest>>
ResultEntry(s) == <<"result", s.call, TokenRead(tok, s.kind), s.outcome \o s.result>>
NewTok(s) == IF s.op = "reseed" THEN [tok EXCEPT !["G"] = <<"1">>] ELSE After(tok, s.call, s.kind)
Now(s) == [G |-> s.G, A |-> s.A, B |-> s.B]
StateEntries(s) == {<<"state", NewTok(s)[g], Now(s)[g]>> : g \in Shared}
Clash(e) == \E m \in memo : m[1] = e[1] /\ SubSeq(m, 1, Len(m) - 1) = SubSeq(e, 1, Len(e) - 1)
                            /\ m[Len(m)] # e[Len(e)]
StepBad(s) ==
  LET now == Now(s)
      reads == IF s.op = "reseed" THEN "G" ELSE Reads(s.kind)
      moved == {g \in Shared : now[g] # dig[g]}
  IN (IF s.op = "call" /\ s.kind = "bad"
      THEN IF s.outcome = "ValueError" THEN {}
           ELSE IF s.outcome = "ok" THEN {"AcceptedBadSeed"} ELSE {"Outcome_" \o s.outcome}
      ELSE IF s.op = "call" /\ s.outcome # "ok" THEN {"Outcome_" \o s.outcome} ELSE {})
     \cup (IF moved \subseteq {reads} THEN {} ELSE {"DisturbsAnotherStream"})
     \cup (IF s.op = "call" /\ reads \in Shared /\ reads \notin moved THEN {"DoesNotReadTheStreamItIsGiven"} ELSE {})
     \cup (IF s.op = "call" /\ s.kind # "bad" /\ Clash(ResultEntry(s)) THEN {"NotReproducible"} ELSE {})
     \cup (IF \E e \in StateEntries(s) : Clash(e) THEN {"StreamStateNotReproducible"} ELSE {})
     \cup (IF s.args THEN {} ELSE {"ArgumentsChanged"})
     \cup (IF s.err THEN {} ELSE {"NumpyErrorHandlingChanged"})
Wanted(s) == (StepBad(s) \cap {o.clauses[j] : j \in 1..Len(o.clauses)})
           \cup {x \in StepBad(s) : x \notin {"AcceptedBadSeed", "DisturbsAnotherStream", "DoesNotReadTheStreamItIsGiven",
                 "NotReproducible", "StreamStateNotReproducible", "ArgumentsChanged", "NumpyErrorHandlingChanged"}}
Advance == /\ phase = "run" /\ i < Len(o.steps)
           /\ LET s == o.steps[i + 1] IN
              IF Wanted(s) # {} THEN End(Wanted(s))
              ELSE /\ i' = i + 1
                   /\ tok' = NewTok(s)
                   /\ dig' = Now(s)
                   /\ memo' = memo \cup StateEntries(s)
                              \cup (IF s.op = "call" /\ s.kind # "bad" THEN {ResultEntry(s)} ELSE {})
                   /\ UNCHANGED <<l, hist, phase>>
Stop == phase = "run" /\ i = Len(o.steps) /\ End({})
TSpec == TInit /\ [][Advance \/ Stop]_tvars
=============================================================================
