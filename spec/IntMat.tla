------------------------------- MODULE IntMat -------------------------------
(* Exact integer linear algebra and fixed-point probabilities.  TLC integers are 32 bit, so    *)
(* probabilities are naturals out of SCALE = 10^8 and quotients are taken digit by digit.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

SCALE == 100000000

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* sum of f[x] over the finite set D (f a function)
SumOver(f, D) == MapThenSumSet(LAMBDA x : f[x], D)

RemoveAt(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]

RECURSIVE SortedSeq(_)
\* the elements of a finite set of integers in increasing order
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o SortedSeq(S \ {m})

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)

RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0
               ELSE IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)

RECURSIVE DetRC(_, _, _)
\* determinant of the submatrix with rows r and columns c (sequences of 1-based indices)
DetRC(M, r, c) ==
  IF r = <<>> THEN 1
  ELSE IF Len(r) = 1 THEN M[r[1]][c[1]]
  ELSE IF Len(r) = 2 THEN M[r[1]][c[1]] * M[r[2]][c[2]] - M[r[1]][c[2]] * M[r[2]][c[1]]
  ELSE SumSeq([j \in 1..Len(c) |->
          IF M[r[1]][c[j]] = 0 THEN 0
          ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[r[1]][c[j]]
               * DetRC(M, Tail(r), RemoveAt(c, j))])

Minor(M, S) == LET s == SortedSeq(S) IN DetRC(M, s, s)          \* principal minor
DetFull(M) == DetRC(M, [i \in 1..Len(M) |-> i], [i \in 1..Len(M) |-> i])

RECURSIVE Digits(_, _, _, _)
\* floor(r * base^d / W) accumulated on q, with 0 <= r < W < 2*10^8
Digits(q, r, W, d) ==
  IF d = 0 THEN q
  ELSE Digits(q * 10 + (r * 10) \div W, (r * 10) % W, W, d - 1)

\* w / W as a natural out of SCALE, for 0 <= w, 0 < W <= 2*10^8
Prob(w, W) == Digits(w \div W, w % W, W, 8)

RECURSIVE SubsetsOfSize(_, _)
SubsetsOfSize(D, k) ==
  IF k = 0 THEN {{}}
  ELSE IF Cardinality(D) < k THEN {}
  ELSE LET x == CHOOSE y \in D : TRUE
       IN SubsetsOfSize(D \ {x}, k) \cup {S \cup {x} : S \in SubsetsOfSize(D \ {x}, k - 1)}
=============================================================================
