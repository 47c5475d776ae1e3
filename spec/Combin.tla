------------------------------- MODULE Combin -------------------------------
(* Permutations, descents, carries, Young tableaux and the Robinson-Schensted correspondence,   *)
(* defined independently of the implementation.                                                 *)
EXTENDS IntMat, TLC

SetSeq(s) == {s[i] : i \in 1..Len(s)}
IsPerm(s, n) == Len(s) = n /\ SetSeq(s) = 1..n
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Descents(s) == {i \in 1..(Len(s) - 1) : s[i] > s[i + 1]}
\* carries when adding the digits of s one after the other in base b: position i carries when
\* the running total modulo b goes down between digit i and digit i + 1
RECURSIVE Running(_, _, _)
Running(s, b, i) == IF i = 0 THEN 0 ELSE (Running(s, b, i - 1) + s[i]) % b
Carries(s, b) == {i \in 1..(Len(s) - 1) : Running(s, b, i) + s[i + 1] >= b}

\* ---- partitions and tableaux (sequences of rows)
IsPartition(p) == /\ \A i \in 1..Len(p) : p[i] >= 1
                  /\ \A i \in 1..(Len(p) - 1) : p[i] >= p[i + 1]
Size(p) == SumSeq(p)
Shape(T) == [i \in 1..Len(T) |-> Len(T[i])]
Cells(p) == UNION {{<<i, j>> : j \in 1..p[i]} : i \in 1..Len(p)}
Conj(p) == IF p = <<>> THEN <<>> ELSE [j \in 1..p[1] |-> Cardinality({i \in 1..Len(p) : p[i] >= j})]
Hook(p, c) == p[c[1]] - c[2] + Conj(p)[c[2]] - c[1] + 1
RECURSIVE ProdSet(_, _)
ProdSet(p, C) == IF C = {} THEN 1
                 ELSE LET c == CHOOSE x \in C : TRUE IN Hook(p, c) * ProdSet(p, C \ {c})
\* number of standard tableaux (hook length formula)
NbSYT(p) == Fact(Size(p)) \div ProdSet(p, Cells(p))
RowsWeak(T) == \A i \in 1..Len(T) : \A j \in 1..(Len(T[i]) - 1) : T[i][j] <= T[i][j + 1]
ColsStrict(T) == \A i \in 1..(Len(T) - 1) : \A j \in 1..Len(T[i + 1]) : T[i][j] < T[i + 1][j]
IsSSYT(T) == IsPartition(Shape(T)) /\ RowsWeak(T) /\ ColsStrict(T)
Content(T) == UNION {SetSeq(T[i]) : i \in 1..Len(T)}
IsSYT(T) == IsSSYT(T) /\ Content(T) = 1..Size(Shape(T))

\* ---- row insertion
RECURSIVE Insert(_, _, _)
\* <<tableau, row where the new cell appears>>
Insert(T, x, r) ==
  IF r > Len(T) THEN <<Append(T, <<x>>), r>>
  ELSE LET row == T[r]
           bumped == {j \in 1..Len(row) : row[j] > x}
       IN IF bumped = {} THEN <<[T EXCEPT ![r] = Append(row, x)], r>>
          ELSE LET j == CHOOSE k \in bumped : \A m \in bumped : k <= m
               IN Insert([T EXCEPT ![r] = [row EXCEPT ![j] = x]], row[j], r + 1)
RECURSIVE RS(_, _)
RS(s, k) ==                                  \* <<P, Q>> after the first k letters
  IF k = 0 THEN <<<<>>, <<>>>>
  ELSE LET pq == RS(s, k - 1)
           ins == Insert(pq[1], s[k], 1)
           r == ins[2]
           Q == IF r > Len(pq[2]) THEN Append(pq[2], <<k>>)
                ELSE [pq[2] EXCEPT ![r] = Append(@, k)]
       IN <<ins[1], Q>>

\* ---- Greene: longest weakly increasing / strictly decreasing subsequences
Subseqs(n) == SUBSET (1..n)
Incr(s, S) == \A i, j \in S : i < j => s[i] <= s[j]
Decr(s, S) == \A i, j \in S : i < j => s[i] > s[j]
Longest(s, Q(_, _)) == LET good == {Cardinality(S) : S \in {T \in Subseqs(Len(s)) : Q(s, T)}}
                       IN CHOOSE m \in good : \A x \in good : x <= m
=============================================================================
