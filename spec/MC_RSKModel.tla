---- MODULE MC_RSKModel ----
(* Design-level model: the insertion machine, one letter per step, over every word of length N   *)
(* on 1..N; what the correspondence guarantees is checked in every state.                        *)
EXTENDS Combin
CONSTANTS N, OnlyPerms
VARIABLES word, k, P, Q
vars == <<word, k, P, Q>>
Init == /\ word \in (IF OnlyPerms THEN Perms(N) ELSE [1..N -> 1..N])
        /\ k = 0 /\ P = <<>> /\ Q = <<>>
Step == /\ k < N /\ k' = k + 1
        /\ LET ins == Insert(P, word[k + 1], 1) IN
           /\ P' = ins[1]
           /\ Q' = IF ins[2] > Len(Q) THEN Append(Q, <<k + 1>>)
                   ELSE [Q EXCEPT ![ins[2]] = Append(@, k + 1)]
        /\ UNCHANGED word
Next == Step
Spec == Init /\ [][Next]_vars
SameShape == Shape(P) = Shape(Q)
Tableaux == IsSSYT(P) /\ IsSYT(Q)
First == k > 0 => /\ Len(P[1]) = Longest(SubSeq(word, 1, k), Incr)
                  /\ Len(P) = Longest(SubSeq(word, 1, k), Decr)
Recursion == <<P, Q>> = RS(word, k)
InvPerm(w) == [i \in 1..N |-> CHOOSE j \in 1..N : w[j] = i]
Symmetric == OnlyPerms /\ k = N => RS(InvPerm(word), N) = <<Q, P>>
====
