------------------------------- MODULE MC_MCMC ------------------------------
(* Design-level check: the chains as a state machine over subsets, for every kernel of a       *)
(* family; every enabled transition is in detailed balance with the determinantal weights.     *)
EXTENDS MCMCChain

Kernels == {<<<<2, 1>>, <<1, 3>>>>,
            <<<<1, 1, 0>>, <<1, 2, 1>>, <<0, 1, 2>>>>,
            <<<<2, 1, 1>>, <<1, 2, 1>>, <<1, 1, 2>>>>,
            <<<<1, 1, 0, 0>>, <<1, 1, 0, 0>>, <<0, 0, 2, 1>>, <<0, 0, 1, 1>>>>,
            <<<<3, 1, 0, 1>>, <<1, 2, 1, 0>>, <<0, 1, 2, 0>>, <<1, 0, 0, 1>>>>}

VARIABLES L, mode, S, steps
vars == <<L, mode, S, steps>>
n == Len(L)
mdl == [kind |-> "M", M |-> L, q |-> 1, n |-> n, card |-> -1]
w == [A \in SUBSET (1..n) |-> Minor(L, A)]

Init == /\ L \in Kernels
        /\ mode \in {"AD", "E", "AED"}
        /\ S \in SUBSET (1..Len(L))
        /\ Minor(L, S) > 0
        /\ steps = 0

Move(B) == /\ B # S
           /\ Legal(mode, S, B)
           /\ w[B] > 0
           /\ S' = B
           /\ steps' = IF steps < 3 THEN steps + 1 ELSE steps
           /\ UNCHANGED <<L, mode>>
Stay == UNCHANGED vars
Next == Stay \/ \E B \in SUBSET (1..n) : Move(B)
Spec == Init /\ [][Next]_vars

InSupport == w[S] > 0
DetailedBalance == \A B \in SUBSET (1..n) :
   (B # S /\ Legal(mode, S, B) /\ w[B] > 0) => Balanced(mode, w, n, S, B)
\* total probability of leaving is at most one
Substochastic == MapThenSumSet(LAMBDA B :
     LET f == Step(mode, w, n, S, B) IN Prob(f[1], f[2]),
     {B \in SUBSET (1..n) : B # S /\ Legal(mode, S, B) /\ w[B] > 0}) <= SCALE
SizeKept == [][mode = "E" => Cardinality(S') = Cardinality(S)]_vars
=============================================================================
