------------------------------- MODULE Poly -------------------------------
(* Random polygons (plCurve.h, random polygon library).

   Each sampler is a probability measure on polygons with n edges.  What a measure determines, and a
   sampler must reproduce, is the support (lengths, closing, flatness, distance of vertices) and the
   averages: every measure here is invariant under permuting the edges and under reflections, so that
   the mean squared chord depends only on the number of edges it skips and is a known fraction.
   Lengths are in millionths, averages in hundredthousandths, each with its standard error.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Closed(k) == k \in {"closed", "pclosed", "eclosed", "sap"}
Planar(k) == k \in {"pclosed", "popen"}
UnitEdges(k) == k \in {"eclosed", "sap"}
Mag(x) == IF x < 0 THEN -x ELSE x

(* ---- mean squared chords <<numerator, denominator>> ---- *)
\* average over all orders of edges that close up: k (n - k) / (n (n - 1)) times the sum of the squared edges
\* average over all orders of independent edges without preferred direction: k times the mean squared edge
SquaredEdge(kind, n) ==        \* mean of the squared length of one edge
  CASE kind = "eclosed" -> <<1, 1>>
    [] kind = "eopen" -> <<4, n * n>>
    [] kind = "closed" -> <<6, n * (n + 1)>>
    [] kind = "pclosed" -> <<8, n * (n + 2)>>
    [] kind = "open" -> <<12, n * ((2 * n) + 1)>>
    [] kind = "popen" -> <<8, n * (n + 1)>>
ChordMean(kind, n, k) ==
  LET s == SquaredEdge(kind, n) IN
  IF Closed(kind) THEN <<(k * (n - k)) * s[1], (n - 1) * s[2]>> ELSE <<k * s[1], s[2]>>
\* x / y in hundredthousandths
Parts(f) == ((100000 * (f[1] % f[2])) \div f[2]) + (100000 * (f[1] \div f[2]))
\* a mean with its standard error agrees with a value: eight standard errors, and these small enough to say something
Agrees(m, v, units) == Mag(m[1] - v) <= (8 * m[2]) + units
=============================================================================
