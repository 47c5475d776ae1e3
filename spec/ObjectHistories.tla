-------------------------- MODULE ObjectHistories --------------------------
(* Generates call histories of a FiniteDPP object: every sequence of Depth calls of the         *)
(* alphabet (BFS), or random ones (tlc -simulate).  Each complete history is printed.            *)
EXTENDS DPPObject, Json

CONSTANTS Depth, Alphabet, RepSet
Seeded == {"GS", "AD", "AED"}

Small ==
  {Call("exact", md, 0) : md \in {"GS", "GS_bis", "KuTa12", "Chol", "Schur", "bogus"}}
  \cup {Call("kdpp", "GS", k) : k \in {1, 2, 3}} \cup {Call("kdpp", "KuTa12", 1)}
  \cup {Call("kdpp", "GS_bis", 2), Call("kdpp", "bogus", 2), Call("kdpp", "Chol", 2)}
  \cup {Call("kdpp", "Schur", 1), Call("kdpp", "Schur", 2)}
  \cup {Call("mcmc", md, 0) : md \in {"AD", "AED", "bogus"}}
  \cup {Call("mcmc", "E", 1), Call("mcmc", "E", 2), Call("mcmc", "E", 3),
          Call("mcmc", "E", 0)}                          \* without a size
  \cup {Call(op, "", 0) : op \in {"compute_K", "compute_L", "flush"}}
Core ==
  {Call("exact", md, 0) : md \in {"GS", "KuTa12", "Chol", "Schur"}}
  \cup {Call("kdpp", "GS", k) : k \in {1, 2, 3}} \cup {Call("kdpp", "Chol", 2)}
  \cup {Call("mcmc", "AD", 0), Call("mcmc", "E", 2)}
  \cup {Call(op, "", 0) : op \in {"compute_K", "compute_L"}}
Wide == Small
  \cup {Call("exact", md, 0) : md \in {"vfx", "alpha"}}
  \cup {Call("kdpp", "vfx", 1), Call("kdpp", "alpha", 2), Call("kdpp", "GS", 5), Call("kdpp", "KuTa12", 5)}
  \cup {Call("mcmc", "zonotope", 0)}
  \cup {Call("info", "", 0)}
Calls == IF Alphabet = "core" THEN Core ELSE IF Alphabet = "wide" THEN Wide ELSE Small

VARIABLES rep, hist, log
vars == <<rep, hist, log>>
Init == rep \in RepSet /\ hist = <<>> /\ log = 0
Do(a) == /\ Len(hist) < Depth /\ Defined(rep, a)
         /\ ~(rep = "A_zono" /\ a.mode = "zonotope")       \* needs cvxopt
         /\ hist' = Append(hist, a)
         /\ log' = LogAfter(log, a, Expected(rep, 2, 4, a))
         /\ IF Len(hist') = Depth
            THEN PrintT("HIST " \o ToJson([rep |-> rep, hist |-> hist'])) ELSE TRUE
         /\ UNCHANGED rep
Next == \E a \in Calls : Do(a)
Spec == Init /\ [][Next]_vars
\* the log never holds more than one entry per call and only sampling calls add to it
LogBounded == log <= Cardinality({i \in 1..Len(hist) : hist[i].op \in Sampling})
=============================================================================
