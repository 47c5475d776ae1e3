------------------------------ MODULE Streams ------------------------------
(* Random number streams.  A stream is what has been drawn from it since it was seeded: its       *)
(* state is the token  <<seed>> \o <<call, call, ...>>.  Streams in play: "G", numpy's global      *)
(* generator, and two RandomState objects "A" (seeded 1) and "B" (seeded 2) owned by the caller.   *)
(* A sampling call reads one stream, the one its `random_state` argument names:                    *)
(*    none, module -> G       objA -> A       objB -> B       int1, np1, int2 -> a stream of its   *)
(*    own, seeded afresh by the call          bad -> no stream: ValueError                         *)
(* Its result is a function of the call and of the token of the stream it reads; it advances       *)
(* that stream and no other.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* A call that draws nothing (kind "plain") is a function of its arguments alone.
Kinds == {"none", "module", "int1", "np1", "int2", "objA", "objB", "bad"}
Shared == {"G", "A", "B"}
Reads(kind) == CASE kind \in {"none", "module"} -> "G"
                 [] kind = "objA" -> "A"
                 [] kind = "objB" -> "B"
                 [] kind \in {"int1", "np1", "int2"} -> "own"
                 [] OTHER -> "nothing"
Fresh(kind) == <<IF kind = "int2" THEN "2" ELSE "1">>
TokenRead(tok, kind) == IF Reads(kind) \in Shared THEN tok[Reads(kind)] ELSE Fresh(kind)
After(tok, call, kind) ==
  IF Reads(kind) \in Shared THEN [tok EXCEPT ![Reads(kind)] = Append(@, call)] ELSE tok
Start == [G |-> <<"1">>, A |-> <<"1">>, B |-> <<"2">>]

\* ---- generation of histories: two calls c and d, reseeding of the global generator included
CONSTANTS Depth
VARIABLES tok, hist
svars == <<tok, hist>>
SInit == tok = Start /\ hist = <<>>
Do(call, kind) == /\ Len(hist) < Depth
                  /\ tok' = After(tok, call, kind)
                  /\ hist' = Append(hist, [op |-> "call", call |-> call, kind |-> kind])
Reseed == /\ Len(hist) < Depth
          /\ tok' = [tok EXCEPT !["G"] = <<"1">>]
          /\ hist' = Append(hist, [op |-> "reseed", call |-> "", kind |-> ""])
SNext == /\ \/ \E call \in {"c", "d"}, kind \in Kinds : Do(call, kind)
            \/ Reseed
         /\ IF Len(hist') = Depth THEN PrintT("HIST " \o ToJson([hist |-> hist'])) ELSE TRUE
SSpec == SInit /\ [][SNext]_svars

\* consequences of the model, checked on it
TypeOK == \A s \in Shared : Len(tok[s]) >= 1 /\ Len(tok[s]) <= Depth + 1
\* a stream's token only tells the calls that read it
OnlyOwnCalls ==
  \A s \in {"A", "B"} :
    Len(tok[s]) - 1 = Cardinality({i \in 1..Len(hist) : hist[i].op = "call" /\ Reads(hist[i].kind) = s})
=============================================================================
