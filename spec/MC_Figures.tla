---- MODULE MC_Figures ----
(* Figures of the real objects against Figures: the record and the parameters of the last call,   *)
(* and everything found in the axes.                                                              *)
EXTENDS Figures, Conform

Kept(o) == IF o.kept THEN {} ELSE {"RecordChanged"}
Mod2(z) == Isqrt((z[1] \div 10) * (z[1] \div 10) + (z[2] \div 10) * (z[2] \div 10)) * 10

BetaFails(o) ==
  LET P == [i \in 1..Len(o.last) |-> Place(o, o.last[i])]
      n == Len(P)
      flat == [i \in 1..n |-> IF o.ens \in {"Circular", "Ginibre"} THEN P[i] ELSE <<P[i][1], 0>>]
      vals == [i \in 1..n |-> IF o.ens = "Circular" THEN o.angles[i] ELSE IF o.ens = "Ginibre" THEN o.mods[i]
                              ELSE P[i][1]]
      lo == CASE o.ens = "Hermite" -> IF o.beta = 0 THEN -30000 ELSE -19900
              [] o.ens = "Laguerre" -> 500 [] OTHER -> 100
      hi == CASE o.ens = "Hermite" -> IF o.beta = 0 THEN 30000 ELSE 19900
              [] o.ens = "Laguerre" -> LET s == {vals[i] : i \in 1..n} IN (CHOOSE a \in s : \A b \in s : b <= a)
              [] OTHER -> 9900
  IN (IF o.draw = "plot" /\ ~ShowsPoints(o.fig, flat, 12) THEN {"NotTheLastSample"} ELSE {})
     \cup (IF o.draw = "hist" /\ (Len(o.fig.bars) = 0 \/ ~IsHistogram(o.fig.bars, vals, Ones(n))) THEN {"NotItsHistogram"} ELSE {})
     \cup (IF o.norm /\ o.ens \in {"Hermite", "Laguerre", "Jacobi"}
              /\ ~(\E k \in 1..Len(o.fig.lines) : IsLimit(o, o.fig.lines[k], lo, hi)) THEN {"WrongCurve"} ELSE {})
     \cup (IF o.norm /\ o.draw = "plot" /\ o.ens \in {"Circular", "Ginibre"}
              /\ ~(\E k \in 1..Len(o.fig.circ) : o.fig.circ[k] = <<0, 0, U>>) THEN {"NoUnitCircle"} ELSE {})
     \cup (IF o.norm /\ o.draw = "hist" /\ o.ens = "Circular"
              /\ ~(\E k \in 1..Len(o.fig.lines) : \A i \in 1..Len(o.fig.lines[k]) : Close(o.fig.lines[k][i][2], 1592, 2))
           THEN {"WrongCurve"} ELSE {})
     \cup (IF o.norm /\ o.draw = "hist" /\ o.ens = "Ginibre"
              /\ ~(\E k \in 1..Len(o.fig.lines) : \E i \in 1..Len(o.fig.lines[k]) :
                     /\ o.fig.lines[k][i] = <<U, 2 * U>>
                     /\ \A j \in 1..Len(o.fig.lines[k]) : LET z == o.fig.lines[k][j] IN z[2] = 2 * z[1] \/ z = <<U, 0>>)
           THEN {"WrongCurve"} ELSE {})
     \cup Kept(o)

\* points of a process at height 1 (0 when alone); the positions are whole or half integers
LineFails(o) == (IF ShowsPoints(o.fig, [i \in 1..Len(o.last) |-> <<o.last[i], o.height>>], 1) THEN {} ELSE {"NotTheLastSample"})
                \cup Kept(o)
\* law of the compared Bernoulli variables, of parameter num / den on 0..size-1
BernFails(o) ==
  IF o.outcome # "law" THEN {"Outcome_" \o o.outcome} ELSE
  LET S(e) == {e.s[i] : i \in 1..Len(e.s)}
      w(A) == Prob(Pow(o.num, Cardinality(A)) * Pow(o.den - o.num, o.size - Cardinality(A)), Pow(o.den, o.size))
  IN IF \E i \in 1..Len(o.law) : ~(S(o.law[i]) \subseteq 0..(o.size - 1)) \/ Cardinality(S(o.law[i])) # Len(o.law[i].s)
     THEN {"NotASetOfPositions"}
     ELSE IF (\E i \in 1..Len(o.law) : ~Close(o.law[i].p, w(S(o.law[i])), o.tol)) \/ Cardinality({S(o.law[i]) : i \in 1..Len(o.law)}) # Pow(2, o.size)
     THEN {"WrongProbability"} ELSE {}

\* the diagram: half-integer points on the axis, the boundary of the partition, the limit shape, all
\* divided by sqrt(theta) when normalised
Conj2(p) == IF Len(p) = 0 THEN <<>> ELSE [j \in 1..p[1] |-> Cardinality({i \in 1..Len(p) : p[i] >= j})]
Scale2(o, x) == IF o.norm THEN (x * U) \div o.root ELSE x * U           \* root^2 = theta, integer
ShapeFails(line) ==
  LET n == Len(line)
      x(i) == line[i][1]  y(i) == line[i][2]
      in(i) == Abs(x(i)) < 19900
      h(i) == (x(i + 1) - x(i)) \div 10
  IN \/ n < 20
     \/ \E i \in 1..n : Abs(x(i)) >= 20000 /\ ~Close(y(i), Abs(x(i)), 3)
     \/ \E i \in 1..n : in(i) /\ (y(i) < Abs(x(i)) - 3 \/ y(i) > 12735 + (Abs(x(i)) * 3700) \div U + 4)
     \/ \E i, j \in 1..n : x(i) = -x(j) /\ ~Close(y(i), y(j), 4)
     \* the second difference is h^2 times 2 / (pi sqrt(4 - x^2))
     \/ \E i \in 2..(n - 1) : LET d == y(i + 1) - 2 * y(i) + y(i - 1)
                                  want == (((h(i) * h(i)) \div 100) * 6366) \div (Isqrt(400000000 - x(i) * x(i)))
                              IN Abs(x(i)) < 16000 /\ ~Close(d, want, 4 + want \div 10)
     \* values at the middle and close to the ends
     \/ \E i \in 1..n : Abs(x(i)) < 1000 /\ ~Close(y(i), 12732, 30)
     \/ \E i \in 1..n : in(i) /\ Abs(x(i)) > 19000 /\ ~Close(y(i), Abs(x(i)), 150)
DiagramFails(o) ==
  LET p == o.part
      q == Conj2(p)
      pt(x, y) == <<Scale2(o, x - y), Scale2(o, x + y)>>
      want == {<<pt(0, i), pt(p[i], i)>> : i \in 1..Len(p)} \cup {<<pt(j, 0), pt(j, q[j])>> : j \in 1..Len(q)}
      nearPt(a, b) == Close(a[1], b[1], 2) /\ Close(a[2], b[2], 2)
      nearSeg(a, b) == (nearPt(a[1], b[1]) /\ nearPt(a[2], b[2])) \/ (nearPt(a[1], b[2]) /\ nearPt(a[2], b[1]))
      got == {o.fig.segs[k] : k \in 1..Len(o.fig.segs)}
      dots == [i \in 1..Len(p) |-> <<Scale2(o, 2 * (p[i] - i) + 1) \div 2, 0>>]
  IN (IF ~ShowsPoints(o.fig, dots, 2) THEN {"NotTheLastSample"} ELSE {})
     \cup (IF ~((\A s \in want : \E g \in got : nearSeg(s, g)) /\ (\A g \in got : \E s \in want : nearSeg(s, g)))
           THEN {"NotItsBoundary"} ELSE {})
     \cup (IF ~(\E k \in 1..Len(o.fig.lines) : LET l2 == o.fig.lines[k] IN
                  Len(l2) >= 3 /\ \A i \in 1..Len(l2) : Close(l2[i][2], Abs(l2[i][1]), 2)) THEN {"NoAxes"} ELSE {})
     \cup (IF o.norm /\ (\A k \in 1..Len(o.fig.lines) : ShapeFails(o.fig.lines[k])) THEN {"WrongCurve"} ELSE {})
     \cup Kept(o)

\* a graph on given positions: the edges drawn and the label of each; edges are numbered as in the graph
TreeFails(o) ==
  LET edge(e) == {e[1], e[2]}
      want == {edge(o.edges[i + 1]) : i \in {o.shown[k] : k \in 1..Len(o.shown)}}
      got == {edge(o.drawn[k]) : k \in 1..Len(o.drawn)}
      lab == {<<edge(o.labels[k].e), o.labels[k].t>> : k \in 1..Len(o.labels)}
      wantlab == {<<edge(o.edges[i + 1]), "$e_{" \o ToString(i) \o "}$">> : i \in {o.shown[k] : k \in 1..Len(o.shown)}}
      plain == {<<edge(o.edges[i + 1]), "$e_" \o ToString(i) \o "$">> : i \in {o.shown[k] : k \in 1..Len(o.shown)}}
  IN (IF o.seen /\ got # want THEN {"NotTheEdges"} ELSE {})
     \cup (IF lab # wantlab /\ lab # plain THEN {"WrongLabels"} ELSE {})
     \cup (IF {o.nodes[k] : k \in 1..Len(o.nodes)} # 0..(o.n - 1) THEN {"WrongNodes"} ELSE {})
     \cup Kept(o)

\* a heat map: rows downwards
KernelFails(o) ==
  IF Len(o.map) # Len(o.K) THEN {"NotTheKernel"} ELSE
  (IF \E i, j \in 1..Len(o.K) : ~Close(o.map[i][j], o.K[i][j], 3) THEN {"NotTheKernel"} ELSE {})
  \cup (IF ~o.downwards THEN {"RowsUpwards"} ELSE {})
  \cup (IF o.ticks # [i \in 1..Len(o.K) |-> ToString(i - 1)] THEN {"WrongTicks"} ELSE {})
  \cup Kept(o)

\* multivariate Jacobi ensemble: exponents are halves e / 2, e in {-1, 0, 1}
RefPdf(x, e) ==
  CASE e = <<-1, -1>> -> (U * 10000) \div ((Isqrt(U * U - x * x) * 31416) \div 10000)
    [] e = <<1, 1>> -> (Isqrt(U * U - x * x) * 6366) \div 10000
    [] e = <<0, 0>> -> 5000
    [] e = <<1, -1>> -> ((U - x) * 3183) \div Isqrt(U * U - x * x)
    [] e = <<-1, 1>> -> ((U + x) * 3183) \div Isqrt(U * U - x * x)
IsRef(line, e) == /\ \E i \in 1..Len(line) : line[i][1] < -9000
                  /\ \E i \in 1..Len(line) : line[i][1] > 9000
                  /\ \A i \in 1..Len(line) : Abs(line[i][1]) > 9950 \/ Close(line[i][2], RefPdf(line[i][1], e), 25 + RefPdf(line[i][1], e) \div 100)
Swap(line) == [i \in 1..Len(line) |-> <<line[i][2], line[i][1]>>]
OpeFails(o) ==
  LET n == Len(o.pts)
      d == Len(o.e)
      allxy == o.shown.xy
      allsz == o.shown.s
      P == [i \in 1..n |-> IF d = 1 THEN <<o.pts[i][1], 0>> ELSE o.pts[i]]
      w(i) == LET js == {j \in 1..Len(allxy) : Close(allxy[j][1], P[i][1], 2) /\ Close(allxy[j][2], P[i][2], 2)}
              IN IF js = {} THEN 0 ELSE allsz[CHOOSE j \in js : TRUE]
      big == LET s == {Abs(w(i)) : i \in 1..n} IN CHOOSE a \in s : \A b \in s : b <= a
      prop(i) == (w(i) * o.kd[i]) \div big           \* constant for weights 1 / K(x, x); kd out of 1000
  IN (IF ~Same(P, allxy, 2) THEN {"NotTheLastSample"} ELSE
      IF o.weighted = "" THEN (IF \E i \in 1..n : ~Close(w(i), w(1), 2) THEN {"WrongWeights"} ELSE {})
      ELSE IF o.weighted = "BH" THEN (IF \E i \in 1..n : ~Close(prop(i), prop(1), 3 + prop(1) \div 100) THEN {"WrongWeights"} ELSE {})
      ELSE (IF \E k \in 2..n : LET t == SumSeq([i \in 1..n |-> ((w(i) * 1000) \div big) * o.phi[i][k]])
                               IN ~Close(t, 0, SumSeq([i \in 1..n |-> Abs(o.phi[i][k])]) + 500 * n)
            THEN {"WrongWeights"} ELSE {}))
     \cup (IF \E a \in 1..d : ~(\E k \in 1..Len(o.fig.lines) : IsRef(o.fig.lines[k], o.e[a]) \/ IsRef(Swap(o.fig.lines[k]), o.e[a]))
           THEN {"WrongCurve"} ELSE {})
     \cup (IF \E a \in 1..d : ~(\E k \in 1..Len(o.hists) : Len(o.hists[k]) > 0 /\
                  IsHistogram(o.hists[k], [i \in 1..n |-> o.pts[i][a]], [i \in 1..n |-> Abs(w(i))]))
           THEN {"NotItsHistogram"} ELSE {})

PotFails(o) == (IF Len(o.fig.bars) = 0 \/ ~IsHistogram(o.fig.bars, o.pts, Ones(Len(o.pts))) THEN {"NotItsHistogram"} ELSE {})
               \cup (IF o.density /\ ~(\E k \in 1..Len(o.fig.lines) : IsLimit([ens |-> "Pot"], o.fig.lines[k], -20000, 20000))
                     THEN {"WrongCurve"} ELSE {})
               \cup (IF ~o.density /\ Len(o.fig.lines) # 0 THEN {"UnknownCurve"} ELSE {})

FigFails(o) ==
  IF o.what = "bern" THEN BernFails(o)
  ELSE IF o.what = "empty" THEN (IF o.outcome = "ok" THEN {"DrewNothing"} ELSE {})
  ELSE IF o.what = "refused" THEN (IF o.outcome = o.want THEN Kept(o) ELSE {"Outcome_" \o o.outcome})
  ELSE IF o.outcome # "ok" THEN {"Outcome_" \o o.outcome}
  ELSE CASE o.what = "beta" -> BetaFails(o)
         [] o.what = "line" -> LineFails(o)
         [] o.what = "diagram" -> DiagramFails(o)
         [] o.what = "tree" -> TreeFails(o)
         [] o.what = "kernel" -> KernelFails(o)
         [] o.what = "ope" -> OpeFails(o)
         [] o.what = "pot" -> PotFails(o)
====
