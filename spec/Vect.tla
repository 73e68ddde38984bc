-------------------------------- MODULE Vect --------------------------------
(* Vectors, angles, planes and tetrahedra (plCurve.h, vector routines), for integral points.  Results
   that are not integral are in units of 1 / u, and are characterised by relations that hold exactly. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
u == 10000
Size(x) == IF x < 0 THEN -x ELSE x
Zero == <<0, 0, 0>>
Add(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Sub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Times(s, a) == [i \in 1..3 |-> s * a[i]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Sq(a) == Dot(a, a)
Sum1(a) == Size(a[1]) + Size(a[2]) + Size(a[3])
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m - 1)
Root(n) == RootIn(n, 0, 46340)
Hundredths(n) == Root(10000 * n)             \* the root of n, n below 200000
\* x (units 1 / u) is the unit vector in the direction of d
UnitOf(x, d) == /\ \A i, j \in 1..3 : Size((x[i] * d[j]) - (x[j] * d[i])) <= Size(d[i]) + Size(d[j]) + 1
                /\ Dot(x, d) > 0
                /\ Size(((x[1] * x[1]) \div 4) + ((x[2] * x[2]) \div 4) + ((x[3] * x[3]) \div 4) - ((u * u) \div 4)) <= u
\* <<c, s>> (units 1 / u) is the direction of <<X, Y>>
Direction(cs, X, Y) == LET c == cs[1] \div 10  s == cs[2] \div 10 IN
  /\ Size((s * X) - (c * Y)) <= (4 * (Size(X) + Size(Y))) + 1000
  /\ (c * X) + (s * Y) > 0
Normal(a, b, c) == Cross(Sub(b, a), Sub(c, a))
\* the dihedral angle at the diagonal a-c of the quadrilateral a b c d is pi when it is flat and unfolded
Dihedral(cs, a, b, c, d) == LET n1 == Normal(a, b, c)  n2 == Normal(a, c, d)  f == Hundredths(Sq(Sub(c, a))) IN
  Direction(cs, (-(Dot(n1, n2) * f)) \div 100, -Dot(Cross(n1, Sub(c, a)), n2))
\* cosine of the angle between two vectors
Cosine(x, a, b) == LET r == Hundredths(Sq(a) * Sq(b)) IN Size((x * r) - (1000000 * Dot(a, b))) <= r + (2 * u)
\* subsets of four of 1..n in lexicographic order
RECURSIVE Quads(_, _, _)
Quads(n, from, k) == IF k = 0 THEN <<<<>>>>
  ELSE IF from > n - k + 1 THEN <<>>
  ELSE LET A == Quads(n, from + 1, k - 1) IN [i \in 1..Len(A) |-> <<from>> \o A[i]] \o Quads(n, from + 1, k)
=============================================================================
