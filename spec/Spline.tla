------------------------------ MODULE Spline ------------------------------
(* Splined curves (plCurve.h, spline package).

   Over arclength, the spline of a polygon is one cubic per edge; it passes through the vertices, has
   continuous first and second derivatives along the strand and the mean tangents of the polygon at
   its two ends (for a closed strand the same one, that of vertex 0, at both).  There is exactly one
   such curve.  A cubic is known from its ends P, Q and its tangents S, T there, over a length h, so
   all of this can be said about values and tangents alone.  Edges have integral lengths.  Positions
   and tangents are in units of 1 / u.                                                             *)
EXTENDS Integers, Sequences, TLC
u == 10000
Size(x) == IF x < 0 THEN -x ELSE x
Minus(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Inner(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* 27 times the cubic at a third and at two thirds of the way (doubled where the other end counts twice)
At13(P, Q, S, T, h) == (20 * P) + (7 * Q) + (h * ((4 * S) - (2 * T)))
At23(P, Q, S, T, h) == (7 * P) + (20 * Q) + (h * ((2 * S) - (4 * T)))
\* 4 h times the tangent half way
Mid(P, Q, S, T, h) == (6 * (Q - P)) - (h * (S + T))
\* h h times the second derivative at the start and at the end
Begin2(P, Q, S, T, h) == (6 * (Q - P)) - (h * ((4 * S) + (2 * T)))
Final2(P, Q, S, T, h) == (h * ((2 * S) + (4 * T))) - (6 * (Q - P))
\* a tangent has the direction of an integral vector and unit length
Tangent(T, d) == /\ \A i \in 1..3 : \A j \in 1..3 : Size((T[i] * d[j]) - (T[j] * d[i])) <= 3 * (Size(d[i]) + Size(d[j])) + 3
                 /\ Inner(T, d) > 0
                 /\ Size(((T[1] * T[1]) \div 4) + ((T[2] * T[2]) \div 4) + ((T[3] * T[3]) \div 4) - ((u * u) \div 4)) <= 2 * u
\* the cubic over edge k of a strand with pieces pc
Cubic(pc, k, i) == LET x == pc[k] IN
  LET P == x.p[1][i]  Q == x.p[4][i]  S == x.t[1][i]  T == x.t[3][i]  h == x.h IN
  /\ Size(At13(P, Q, S, T, h) - (27 * x.p[2][i])) <= 40 + (6 * h)
  /\ Size(At23(P, Q, S, T, h) - (27 * x.p[3][i])) <= 40 + (6 * h)
  /\ Size(Mid(P, Q, S, T, h) - ((4 * h) * x.t[2][i])) <= 8 + (8 * h)
Smooth(pc, k, i) == LET x == pc[k]  y == pc[k + 1] IN
  /\ Size(x.t[3][i] - y.t[1][i]) <= 2
  /\ LET a == Final2(x.p[1][i], x.p[4][i], x.t[1][i], x.t[3][i], x.h)  b == Begin2(y.p[1][i], y.p[4][i], y.t[1][i], y.t[3][i], y.h) IN
     Size(((y.h * y.h) * a) - ((x.h * x.h) * b)) <= ((4 * x.h) * y.h) * ((2 * x.h) + (2 * y.h))
Strand(c) ==
  LET n == Len(c.v)  m == Len(c.pc)  V(k) == c.v[((k - 1) % n) + 1] IN
  /\ c.ns = n /\ m = (IF c.open = 1 THEN n - 1 ELSE n)
  /\ \A k \in 1..m : /\ LET d == Minus(V(k + 1), V(k)) IN c.pc[k].h * c.pc[k].h = Inner(d, d)
                     /\ \A i \in 1..3 : Size(c.pc[k].p[1][i] - (u * V(k)[i])) <= 1 /\ Size(c.pc[k].p[4][i] - (u * V(k + 1)[i])) <= 1
                     /\ \A i \in 1..3 : Cubic(c.pc, k, i)
                     /\ \A i \in 1..3 : k < m => Smooth(c.pc, k, i)
  /\ Tangent(c.pc[1].t[1], IF c.open = 1 THEN Minus(V(2), V(1)) ELSE Minus(V(2), V(n)))
  /\ Tangent(c.pc[m].t[3], IF c.open = 1 THEN Minus(V(n), V(n - 1)) ELSE Minus(V(2), V(n)))
RECURSIVE Upto(_, _)
Upto(pc, k) == IF k = 0 THEN 0 ELSE pc[k].h + Upto(pc, k - 1)
\* colours run linearly from vertex to vertex; w / d is the position of the sample
ColourAt(pc, n, c0, w, d) == LET k == CHOOSE x \in 1..Len(pc) : Upto(pc, x - 1) * d <= w /\ w <= Upto(pc, x) * d
                                 lo == Upto(pc, k - 1) * d  hi == Upto(pc, k) * d  a == c0[k]  b == c0[(k % n) + 1] IN
  [i \in 1..4 |-> ((a[i] * (hi - w)) + (b[i] * (w - lo))) \div (hi - lo)]
=============================================================================
