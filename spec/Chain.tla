------------------------------- MODULE Chain -------------------------------
(* The Markov chain on closed polygons (tsmcmc.h).

   A state is a triangulation T (module Tri) with the lengths of its edges and diagonals and a
   dihedral angle for every diagonal.  Lengths are in millionths, angles in millionths of a radian.
   Lengths are admissible when every triangle satisfies the triangle inequalities: the diagonal
   lengths then form a convex polytope, and the chain walks on polytope x torus.  Vectors are
   sequences of three integers.                                                                  *)
EXTENDS Tri

One == 1000000
TwoPi == 6283186
Abs(x) == IF x < 0 THEN -x ELSE x
Size(el, dl, s) == IF s[2] = "e" THEN el[s[1] + 1] ELSE dl[s[1] + 1]
SidesOf(T, i) == LET t == T.t[i + 1] IN <<<<t.pc, t.pt>>, <<t.dc[1], t.dt[1]>>, <<t.dc[2], t.dt[2]>>>>
\* the triangle inequalities, with slack for rounding
TriangleOK(T, el, dl, i, slack) == LET s == SidesOf(T, i)  a == Size(el, dl, s[1])  b == Size(el, dl, s[2])  c == Size(el, dl, s[3]) IN
  a + b + slack >= c /\ b + c + slack >= a /\ c + a + slack >= b
Admissible(T, el, dl, slack) == /\ Len(el) = T.n /\ Len(dl) = T.n - 3
                                /\ \A i \in 0..(Len(T.t) - 1) : TriangleOK(T, el, dl, i, slack)
Confined(dl, r, slack) == \A i \in 1..Len(dl) : dl[i] <= r + slack
AnglesOK(T, da) == Len(da) = T.n - 3 /\ \A i \in 1..Len(da) : da[i] \in 0..(TwoPi + 1)
\* distance on the circle of circumference w
Round(a, b, w) == LET d == (a - b) % w IN IF d <= w - d THEN d ELSE w - d

(* ---- exact geometry of integral polygons ---- *)
VSub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
VDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
VCross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Norm2(a) == VDot(a, a)
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m - 1)
Root(n) == RootIn(n, 0, 46340)
\* the triangle on the parent's side of diagonal i, and the one below it
Above(T, i) == CHOOSE j \in 0..(Len(T.t) - 1) : \E k \in 1..2 : T.t[j + 1].dt[k] = "d" /\ T.t[j + 1].dc[k] = i
Below(T, i) == CHOOSE j \in 0..(Len(T.t) - 1) : j # 0 /\ T.t[j + 1].pt = "d" /\ T.t[j + 1].pc = i
Apex(T, j, c) == CHOOSE x \in Verts(T, j) : x \notin Un(c)
\* with the normals nA above and nB below, the angle t = dihedral - pi turns nA into nB about the diagonal:
\* cos t |nA||nB| = X,  sin t |nA||nB||F| = Y
Hinge(T, v, i) == LET c == T.d[i + 1]  p == v[c[1] + 1]  r == v[c[2] + 1]
                      a == v[Apex(T, Above(T, i), c) + 1]  b == v[Apex(T, Below(T, i), c) + 1]
                      nA == VCross(VSub(r, p), VSub(a, r))  nB == VCross(VSub(p, r), VSub(b, p))  F == VSub(p, r) IN
  [X |-> VDot(nA, nB), Y |-> VDot(nB, VCross(nA, F)), f |-> F, flat |-> nA = <<0, 0, 0>> \/ nB = <<0, 0, 0>>]
\* the direction <<c, s>> (thousandths) is that of the dihedral
HingeOK(h, cs) == LET f == Root(10000 * Norm2(h.f))               \* |F| in hundredths
                      Xf == (h.X * f) \div 100 IN
  /\ Abs((cs[2] * Xf) - (cs[1] * h.Y)) <= 4 * (Abs(Xf) + Abs(h.Y)) + 2000
  /\ -((cs[1] * Xf) + (cs[2] * h.Y)) > 0
\* distances squared and signed volumes: a polygon up to motions
DistTable(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> Norm2(VSub(v[i], v[j]))]]
Volume(v, k) == VDot(VSub(v[2], v[1]), VCross(VSub(v[3], v[1]), VSub(v[k], v[1])))

(* ---- a permutation of the edges, seen from their scalar and triple products ---- *)
RECURSIVE Match(_, _, _, _, _)
Match(g0, g1, p, n, tol) ==       \* extends p, with g1[i][j] = g0[p[i]][p[j]]; the sequence of all complete ones
  IF Len(p) = n THEN {p}
  ELSE UNION {Match(g0, g1, Append(p, x), n, tol) : x \in {y \in 1..n : (\A i \in 1..Len(p) : p[i] # y)
              /\ Abs(g0[y][y] - g1[Len(p) + 1][Len(p) + 1]) <= tol
              /\ \A i \in 1..Len(p) : Abs(g0[y][p[i]] - g1[Len(p) + 1][i]) <= tol}}
Permuted(g0, g1, t0, t1, n, fixed, tol) ==
  \E p \in Match(g0, g1, IF fixed THEN <<1>> ELSE <<>>, n, tol) :
     \A i, j, k \in 1..n : i < j /\ j < k => Abs(t1[i][j][k] - t0[p[i]][p[j]][p[k]]) <= 10 * tol

(* ---- uniform averages over the polytope, by cells of a grid ---- *)
Cells(T, el, r, h, top) ==        \* the centres of the cells inside; lengths are multiples of h / 2
  {x \in [1..(T.n - 3) -> {h * k + (h \div 2) : k \in 0..(top - 1)}] :
     (r > 0 => \A i \in 1..(T.n - 3) : x[i] <= r) /\ \A i \in 0..(Len(T.t) - 1) : TriangleOK(T, el, x, i, 0)}
RECURSIVE SumOver(_, _)
SumOver(S, i) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[i] + SumOver(S \ {x}, i)
\* expected squared chord of the equilateral n-gon with unit edges: k (n - k) / (n - 1)
Chord2(n, k) == (10000 * (k * (n - k))) \div (n - 1)
=============================================================================
