----------------------------- MODULE DPPObject -----------------------------
(* A FiniteDPP object as seen by its user: how it was parametrised (rep, never changing), the   *)
(* log of its samples, and its calls.  What a call does depends on rep and the call alone, not  *)
(* on the calls made before it: there is no other state in this machine.                        *)
EXTENDS MCMCChain, LawConform

Reps == {"L", "L_eig_dec", "L_gram_factor", "L_gram_tall", "L_eval_X_data", "K", "K_eig_dec",
         "A_zono", "Kproj", "K_eig_proj", "Lproj", "L_eig_proj"}
CorrProj(r) == r \in {"A_zono", "Kproj", "K_eig_proj"}
Proj(r) == CorrProj(r) \/ r \in {"Lproj", "L_eig_proj"}

\* ---- calls: [op, mode, k]
Call(op, mode, k) == [op |-> op, mode |-> mode, k |-> k]
EigModes == {"GS", "GS_bis", "KuTa12"}
Sampling == {"exact", "kdpp", "mcmc"}

\* calls whose behaviour is documented for the representation
Defined(r, a) ==
  /\ r = "Kproj" => ~(a.op \in {"exact", "kdpp"} /\ a.mode \in {"GS_bis", "KuTa12"})
  /\ r = "Lproj" => ~(a.op = "kdpp" /\ a.mode \in {"GS_bis", "KuTa12"})
  /\ r \in {"Lproj", "L_eig_proj"} => ~(a.op = "mcmc" /\ a.k = 3)   \* beyond the rank
  /\ a.op = "mcmc" /\ a.mode = "E" /\ a.k = 0 => CorrProj(r)
  /\ a.op = "kdpp" /\ a.mode \in {"Chol", "Schur"} => r \in {"Kproj", "Lproj"}

\* expected outcome; rank and n are those of the kernel
Expected(r, rank, n, a) ==
  CASE a.op = "exact" /\ a.mode = "bogus" -> "ValueError"
    [] a.op = "exact" /\ a.mode = "Schur" -> IF CorrProj(r) THEN "ok" ELSE "ValueError"
    [] a.op = "exact" /\ a.mode \in {"vfx", "alpha"} ->
         IF r = "L_eval_X_data" THEN "ok" ELSE "ValueError"
    [] a.op = "exact" -> "ok"
    [] a.op = "kdpp" /\ a.mode = "bogus" -> "ValueError"
    [] a.op = "kdpp" /\ a.mode \in {"vfx", "alpha"} ->
         IF r = "L_eval_X_data" THEN "ok" ELSE "ValueError"
    [] a.op = "kdpp" /\ CorrProj(r) -> IF a.k = rank THEN "ok" ELSE "ValueError"
    [] a.op = "kdpp" -> IF a.k <= rank THEN "ok" ELSE "ValueError"
    [] a.op = "mcmc" /\ a.mode \in {"AD", "AED"} -> IF CorrProj(r) THEN "ValueError" ELSE "ok"
    [] a.op = "mcmc" /\ a.mode = "E" -> IF CorrProj(r) /\ a.k # rank THEN "ValueError" ELSE "ok"
    [] a.op = "mcmc" /\ a.mode = "zonotope" -> IF r = "A_zono" THEN "ok" ELSE "ValueError"
    [] a.op = "mcmc" -> "ValueError"
    [] a.op = "compute_L" -> IF CorrProj(r) THEN "ValueError" ELSE "ok"
    [] OTHER -> "ok"                                   \* compute_K, flush, info

\* the log: grows by one on a successful sampling call, emptied by flush, else untouched
LogAfter(log, a, outcome) ==
  IF outcome # "ok" THEN log
  ELSE IF a.op \in Sampling THEN log + 1
  ELSE IF a.op = "flush" THEN 0 ELSE log

\* the law of a successful call: the model conditioned on the size when the call fixes it
CallModel(m, a) ==
  IF m.kind = "A" THEN m
  ELSE IF a.op = "kdpp" \/ (a.op = "mcmc" /\ a.mode = "E") THEN [m EXCEPT !.card = a.k]
  ELSE m
=============================================================================
