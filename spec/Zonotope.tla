------------------------------ MODULE Zonotope ------------------------------
(* The zonotope sampler (MCMC for projection DPPs).  A is an integer r x N matrix of full row  *)
(* rank, Z(A) = A [0,1]^N its zonotope, C an integer linear objective.  The optimal bases of    *)
(* min C.y, A y = x, 0 <= y <= 1 tile Z(A) by parallelepipeds, one per basis B, of volume        *)
(* |det A_B|.  A move draws a point x1 uniformly on the chord of Z(A) through x0 in a given      *)
(* direction and accepts it with probability |det A_B1| / |det A_B0|, so that the law of the     *)
(* tile is det(A_B)^2 / det(A A^T).                                                              *)
EXTENDS IntMat, TLC

Rk(A) == Len(A)
Nb(A) == Len(A[1])
Rows(A) == [i \in 1..Rk(A) |-> i]
\* determinant of the columns listed in s, column k replaced by v (k = 0: none)
DetWith(A, s, k, v) ==
  LET m == [i \in 1..Rk(A) |-> [j \in 1..Rk(A) |-> IF j = k THEN v[i] ELSE A[i][s[j]]]]
  IN DetRC(m, Rows(A), Rows(A))
Det(A, B) == LET s == SortedSeq(B) IN DetRC(A, Rows(A), s)
Bases(A) == {B \in SubsetsOfSize(1..Nb(A), Rk(A)) : Det(A, B) # 0}

\* sign of the reduced cost of item j for the basis B
Bordered(A, C, B, j) ==
  LET s == Append(SortedSeq(B), j)
      m == [i \in 1..(Rk(A) + 1) |-> IF i <= Rk(A) THEN A[i] ELSE C]
  IN DetRC(m, [i \in 1..(Rk(A) + 1) |-> i], s)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Cost(A, C, B, j) == Sign(Bordered(A, C, B, j)) * Sign(Det(A, B))
Generic(A, C) == \A B \in Bases(A) : \A j \in (1..Nb(A)) \ B : Cost(A, C, B, j) # 0
\* corner of the tile of B: the items outside B whose optimal value is one
Corner(A, C, B) == LET up == {j \in (1..Nb(A)) \ B : Cost(A, C, B, j) < 0}
                   IN [i \in 1..Rk(A) |-> SumOver([j \in up |-> A[i][j]], up)]

\* a tile with its data, computed once
Tiles(A, C) == {[B |-> B, s |-> SortedSeq(B), d |-> Det(A, B), c |-> Corner(A, C, B)] : B \in Bases(A)}
\* coordinates of X / q in the tile, out of q |d| (one number per element of B)
Coord(A, t, X, q, k) == Sign(t.d) * DetWith(A, t.s, k, [i \in 1..Rk(A) |-> X[i] - q * t.c[i]])
Slope(A, t, D, k) == Sign(t.d) * DetWith(A, t.s, k, D)
InTile(A, t, X, q) == \A k \in 1..Rk(A) : LET y == Coord(A, t, X, q, k) IN 0 <= y /\ y <= q * Abs(t.d)
Inside(A, t, X, q) == \A k \in 1..Rk(A) : LET y == Coord(A, t, X, q, k) IN 0 < y /\ y < q * Abs(t.d)

\* ---------------------------------------------------------------- chords, out of F
F == 100000
INFTY == 1000000000
RECURSIVE Dig5(_, _, _, _)
Dig5(acc, rest, W, k) == IF k = 0 THEN acc ELSE Dig5(acc * 10 + (rest * 10) \div W, (rest * 10) % W, W, k - 1)
Quot(a, b) == Sign(a) * Sign(b) * Dig5(Abs(a) \div Abs(b), Abs(a) % Abs(b), Abs(b), 5)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* values of alpha (lo, hi out of F; empty when lo > hi) for which X/q + alpha D is in the tile
Interval(A, t, X, q, D) ==
  LET one(k) ==
        LET y == Coord(A, t, X, q, k)  e == Slope(A, t, D, k)  top == q * Abs(t.d)
        IN IF e = 0 THEN (IF 0 <= y /\ y <= top THEN <<-INFTY, INFTY>> ELSE <<1, 0>>)
           ELSE LET u == Quot(-y, q * e)  v == Quot(top - y, q * e) IN <<Min2(u, v), Max2(u, v)>>
      RECURSIVE meet(_)
      meet(k) == IF k = 0 THEN <<-INFTY, INFTY>>
                 ELSE LET a == meet(k - 1)  b == one(k) IN
                      IF b[1] > b[2] THEN <<1, 0>> ELSE <<Max2(a[1], b[1]), Min2(a[2], b[2])>>
  IN meet(Rk(A))
Extent(iv) == IF iv[1] >= iv[2] THEN 0 ELSE iv[2] - iv[1]

\* law of the tile after one move from X/q in tile t0 in direction D: <<tile, probability out of SCALE>>
MoveLaw(A, T, t0, X, q, D) ==
  LET iv == [t \in T |-> Interval(A, t, X, q, D)]
      len == [t \in T |-> Extent(iv[t])]
      tot == SumOver(len, T)
      go == [t \in T |-> IF tot = 0 THEN 0
                         ELSE LET p == Prob(len[t], tot)
                              IN IF Abs(t.d) >= Abs(t0.d) THEN p
                                 ELSE (p \div Abs(t0.d)) * Abs(t.d)]
      out == SumOver([t \in T \ {t0} |-> go[t]], T \ {t0})
  IN [t \in T |-> IF t = t0 THEN SCALE - out ELSE go[t]]
\* midpoint of the chord, as integers out of 10^4 (error of a few units)
Mid(A, T, X, q, D) ==
  LET iv == {Interval(A, t, X, q, D) : t \in T}
      full == {i \in iv : i[1] < i[2]}
      lo == CHOOSE a \in {i[1] : i \in full} : \A i \in full : a <= i[1]
      hi == CHOOSE a \in {i[2] : i \in full} : \A i \in full : a >= i[2]
      mid == (lo + hi) \div 2
  IN [i \in 1..Rk(A) |-> (X[i] * 10000) \div q + (mid * D[i]) \div 10]

(* ---------------------------------------------------------------- conformance               *)
(* what = "step":  A, C, X, q; D1 (<<>> or the direction of a first move to the midpoint of its *)
(*   chord); D the direction of the next one; path: the states before it; law of the next state. *)
(* what = "start": A, C, X, q and path = <<first state>>                                         *)
(* what = "run": r, n, iters: the recorded chain and the sample returned                         *)
(* what = "basis": y, eps out of 10^6 and the items extracted                                    *)
Items0(s) == {s[i] + 1 : i \in 1..Len(s)}
TileOf(A, T, X, q) == {t \in T : InTile(A, t, X, q)}

StepFails(o) ==
  LET T == TLCEval(Tiles(o.A, o.C))
      at == TileOf(o.A, T, o.X, o.q)
      t0 == CHOOSE t \in at : TRUE
      named(s) == {t \in T : t.B = Items0(s)}
      badstart == Cardinality(at) # 1 \/ Items0(o.path[1]) # t0.B \/ Len(o.path[1]) # Rk(o.A)
  IN IF ~Generic(o.A, o.C) \/ Cardinality(at) # 1 THEN {"BadCase"}
     ELSE IF badstart THEN {"WrongTile"}
     ELSE IF o.what = "start" THEN {}
     ELSE
     LET two == o.D1 # <<>>
         X1 == IF two THEN Mid(o.A, T, o.X, o.q, o.D1) ELSE o.X
         t1s == IF two THEN TileOf(o.A, T, X1, 10000) ELSE at
         t1 == CHOOSE t \in t1s : TRUE
         here == IF two THEN Items0(o.path[2]) ELSE t0.B
         moved == two /\ here = t1.B
         stayed == ~two \/ (here = t0.B /\ Abs(t1.d) < Abs(t0.d))
         law == TLCEval(IF moved THEN MoveLaw(o.A, T, t1, X1, 10000, o.D)
                        ELSE MoveLaw(o.A, T, t0, o.X, o.q, o.D))
         R == 1..Len(o.law)
         seen(t) == SumSeq([i \in R |-> IF Items0(o.law[i].s) = t.B THEN o.law[i].p ELSE 0])
     IN IF Cardinality(t1s) # 1 THEN {"BadCase"}
        ELSE IF ~moved /\ ~stayed THEN {"ImpossibleMove"}
        ELSE (IF \E i \in R : named(o.law[i].s) = {} \/ Len(o.law[i].s) # Rk(o.A) THEN {"NotABasis"} ELSE {})
             \cup (IF \E t \in T : Abs(seen(t) - law[t]) > o.tol THEN {"WrongProbability"} ELSE {})

RunFails(o) ==
  (IF Len(o.chain) # o.iters THEN {"WrongLength"} ELSE {})
  \cup (IF \E i \in 1..Len(o.chain) : Cardinality(Items0(o.chain[i])) # Rk(o.A)
                                      \/ Det(o.A, Items0(o.chain[i])) = 0 THEN {"NotABasis"} ELSE {})
  \cup (IF o.chain # <<>> /\ o.last # o.chain[Len(o.chain)] THEN {"ReturnedNotTheLast"} ELSE {})
  \cup (IF o.chain # <<>> /\ Items0(o.chain[1]) \notin {t.B : t \in TileOf(o.A, Tiles(o.A, o.C), o.X, o.q)}
        THEN {"WrongTile"} ELSE {})
  \cup (IF o.other THEN {"RecordChanged"} ELSE {})

ZonotopeFails(o) ==
  IF o.outcome = "skipped" THEN {}
  ELSE IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE CASE o.what \in {"step", "start"} -> StepFails(o)
         [] o.what = "run" -> RunFails(o)
         [] o.what = "basis" -> IF Items0(o.items) = {i \in 1..Len(o.y) : o.eps < o.y[i] /\ o.y[i] < 1000000 - o.eps}
                                   /\ Cardinality(Items0(o.items)) = Len(o.items)
                                THEN {} ELSE {"WrongBasis"}
=============================================================================
