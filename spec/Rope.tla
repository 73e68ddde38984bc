-------------------------------- MODULE Rope --------------------------------
(* Struts, minimum radius, thickness and ropelength of a polygonal curve (octrope.h).

   A curve here is a sequence of strands [open, vt] with integer vertices, so that closest points,
   distances (squared) and radii (squared) are rational and every comparison below is exact.
   Lengths are reported in units of 1/1024.

   A strut is a pair of points on two edges that do not share a vertex at which the distance is
   locally minimal; one that starts at a vertex belongs to the edge that leaves the vertex.
   A configuration that is only just (or only just not) a strut -- parallel edges, a foot exactly at
   a vertex -- is "maybe": finite precision may decide either way.                              *)
EXTENDS PLCurve

(* ---- edges ---- *)
NE(s) == IF s.open = 1 THEN Nv(s) - 1 ELSE Nv(s)
Vt(s, j) == IF j = -1 THEN (IF s.open = 1 THEN s.vt[2] ELSE s.vt[Nv(s)]) ELSE s.vt[(j % Nv(s)) + 1]      \* j from 0
EdgesOf(L) == {<<c, v>> \in (1..Len(L)) \X (0..1000) : v < NE(L[c])}
Edg(L, e) == [c |-> e[1] - 1, v |-> e[2], a |-> Vt(L[e[1]], e[2]), b |-> Vt(L[e[1]], e[2] + 1), p |-> Vt(L[e[1]], e[2] - 1),
              last |-> L[e[1]].open = 1 /\ e[2] = Nv(L[e[1]]) - 2]
Adjacent(L, e, f) ==
  e[1] = f[1] /\ LET d == Abs(e[2] - f[2]) IN d <= 1 \/ (L[e[1]].open = 0 /\ d = NE(L[e[1]]) - 1)

(* ---- closest points of two segments ---- *)
Foot(P, a, b) ==                                 \* the point of ab nearest to P: at n/d, squared distance num/den
  LET u == Sub(b, a)  w == Sub(P, a)  D == Sq(u)  q == Dot(w, u) IN
  IF q <= 0 THEN [n |-> 0, d |-> 1, num |-> Sq(w), den |-> 1]
  ELSE IF q >= D THEN [n |-> 1, d |-> 1, num |-> Sq(Sub(P, b)), den |-> 1]
  ELSE [n |-> q, d |-> D, num |-> Sq(w) * D - q * q, den |-> D]
Less(x, y) == x.num * y.den < y.num * x.den
Closest(A, B) ==
  LET d1 == Sub(A.b, A.a)  d2 == Sub(B.b, B.a)  w == Sub(B.a, A.a)
      D1 == Sq(d1)  D2 == Sq(d2)  R == Dot(d1, d2)  S1 == Dot(d1, w)  S2 == Dot(d2, w)
      N == D1 * D2 - R * R  T == S1 * D2 - S2 * R  U == S1 * R - S2 * D1
  IN IF N > 0 /\ T >= 0 /\ T <= N /\ U >= 0 /\ U <= N
     THEN LET vol == Dot(w, Cross(d1, d2)) IN [par |-> FALSE, sn |-> T, sd |-> N, tn |-> U, td |-> N, num |-> vol * vol, den |-> N]
     ELSE LET f0 == Foot(A.a, B.a, B.b)  f1 == Foot(A.b, B.a, B.b)  g0 == Foot(B.a, A.a, A.b)  g1 == Foot(B.b, A.a, A.b)
              m1 == IF Less(f1, f0) THEN f1 ELSE f0
              m2 == IF Less(g0, m1) THEN g0 ELSE m1
              m  == IF Less(g1, m2) THEN g1 ELSE m2
              st == IF m = g1 /\ ~(m = f0 \/ m = f1 \/ m = g0) THEN <<g1.n, g1.d, 1, 1>> ELSE
                    IF ~Less(m, f0) /\ ~Less(f0, m) THEN <<0, 1, f0.n, f0.d>> ELSE
                    IF ~Less(m, f1) /\ ~Less(f1, m) THEN <<1, 1, f1.n, f1.d>> ELSE
                    IF ~Less(m, g0) /\ ~Less(g0, m) THEN <<g0.n, g0.d, 0, 1>> ELSE <<g1.n, g1.d, 1, 1>>
          IN [par |-> N = 0, sn |-> st[1], sd |-> st[2], tn |-> st[3], td |-> st[4], num |-> m.num, den |-> m.den]

(* ---- is the closest pair of two edges a strut? ---- *)
\* sign of (y - x) . u for the point x (integral) and y = B.a + (n/d)(B.b - B.a)
Along(x, B, n, d, u) == d * Dot(Sub(B.a, x), u) + n * Dot(Sub(B.b, B.a), u)
EndStatus(A, B, sn, sd, tn, td) ==
  IF sn = 0
  THEN LET g == Along(A.a, B, tn, td, Sub(A.b, A.a))  h == Along(A.a, B, tn, td, Sub(A.p, A.a)) IN
       IF h > 0 THEN "no" ELSE IF g < 0 /\ h < 0 THEN "yes" ELSE "maybe"
  ELSE IF sn = sd
  THEN LET g == Along(A.b, B, tn, td, Sub(A.b, A.a)) IN IF g = 0 THEN "maybe" ELSE IF A.last THEN "yes" ELSE "no"
  ELSE "yes"
Status(A, B, c) ==
  IF c.par THEN "maybe"
  ELSE LET x == EndStatus(A, B, c.sn, c.sd, c.tn, c.td)  y == EndStatus(B, A, c.tn, c.td, c.sn, c.sd) IN
       IF x = "no" \/ y = "no" THEN "no" ELSE IF x = "maybe" \/ y = "maybe" THEN "maybe" ELSE "yes"

(* ---- lengths on the grid ---- *)
Million(num, den) ==          \* 2^20 * num/den, rounded down
  LET q == num \div den  r == num % den  a == (r * 1024) \div den  b == (((r * 1024) % den) * 1024) \div den IN q * 1048576 + a * 1024 + b
GLen(num, den) == ISqrt(Million(num, den))
Infinite == 2000000000

\* all struts (and perhaps-struts) of a curve, each as <<edge, edge>> with the first one smaller
Struts(L) ==
  LET E == EdgesOf(L)
      S == TLCEval([e \in E |-> Edg(L, e)])
      Before(e, f) == e[1] < f[1] \/ (e[1] = f[1] /\ e[2] < f[2])
      All == {<<e, f>> \in E \X E : Before(e, f) /\ ~Adjacent(L, e, f)}
      Rec(p) == LET c == Closest(S[p[1]], S[p[2]]) IN [e |-> p[1], f |-> p[2], c |-> c, k |-> Status(S[p[1]], S[p[2]], c)]
  IN {[e |-> r.e, f |-> r.f, k |-> r.k, c |-> r.c, len |-> GLen(r.c.num, r.c.den)] : r \in {q \in {Rec(p) : p \in All} : q.k # "no"}}

MinLen(S) == IF S = {} THEN Infinite ELSE CHOOSE m \in {q.len : q \in S} : \A q \in S : m <= q.len

(* ---- curvature: only where the two edges at a vertex have integral lengths ---- *)
Turns(L) ==    \* every vertex with two edges that are not parallel, with both neighbours: radius squared = num/den
  LET Vs == {<<c, v>> \in (1..Len(L)) \X (0..1000) : v < Nv(L[c]) /\ (L[c].open = 0 \/ (v > 0 /\ v < Nv(L[c]) - 1))}
      Ein(p) == Sub(Vt(L[p[1]], p[2]), Vt(L[p[1]], p[2] - 1))
      Eout(p) == Sub(Vt(L[p[1]], p[2] + 1), Vt(L[p[1]], p[2]))
      Bent(p) == Cross(Ein(p), Eout(p)) # Zero
      Rec(p, w) == LET a == ISqrt(Sq(Ein(p)))  b == ISqrt(Sq(Eout(p)))  d == Dot(Ein(p), Eout(p))  m == IF w = -1 THEN a ELSE b
                   IN [c |-> p[1] - 1, v |-> p[2], sv |-> p[2] + w, mr |-> GLen(m * m * (a * b + d), 4 * (a * b - d))]
  IN {Rec(p, w) : p \in {q \in Vs : Bent(q)}, w \in {-1, 1}}
MinMr(S) == IF S = {} THEN Infinite ELSE CHOOSE m \in {q.mr : q \in S} : \A q \in S : m <= q.mr
Integral(L) == \A i \in 1..Len(L) : \A j \in 0..(NE(L[i]) - 1) : LET q == Sq(Sub(Vt(L[i], j + 1), Vt(L[i], j))) IN ISqrt(q) * ISqrt(q) = q
CurveLen(L) == Sum([i \in 1..Len(L) |-> Sum([j \in 1..NE(L[i]) |-> ISqrt(Sq(Sub(Vt(L[i], j), Vt(L[i], j - 1))))])])
=============================================================================
