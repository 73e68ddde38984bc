------------------------------- MODULE PDProj -------------------------------
(* The diagram of a closed polygonal curve with integer vertices, projected along the z axis.

   A curve v is a sequence of components, a component a sequence of vertices <<x, y, z>>.
   Everything is exact: crossings are found with integer orientation tests, positions along an
   edge and heights are compared as fractions.  The result is an abstract diagram (PDCode), so
   "the diagram of the curve" is compared with what the library returns up to numbering only.  *)
EXTENDS PDHomfly

(* ---------------- planar geometry ---------------- *)
Edges(v) == UNION {{<<i, j>> : j \in 1..Len(v[i])} : i \in 1..Len(v)}
Ta(v, e) == v[e[1]][e[2]]
Hb(v, e) == v[e[1]][(e[2] % Len(v[e[1]])) + 1]
Ori(a, b, c) == (b[1]-a[1]) * (c[2]-a[2]) - (b[2]-a[2]) * (c[1]-a[1])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Opposite(p, q) == (p > 0 /\ q < 0) \/ (p < 0 /\ q > 0)
Crosses(v, e, f) ==
  LET a == Ta(v, e)  b == Hb(v, e)  c == Ta(v, f)  d == Hb(v, f)
  IN /\ Opposite(Ori(a, b, c), Ori(a, b, d))
     /\ Opposite(Ori(c, d, a), Ori(c, d, b))
\* where on e the crossing with f lies: <<numerator, denominator>>, 0 < n < d
Par(v, e, f) ==
  LET p == Ori(Ta(v, f), Hb(v, f), Ta(v, e))
      q == Ori(Ta(v, f), Hb(v, f), Hb(v, e))
  IN IF p > 0 THEN <<p, p - q>> ELSE <<-p, q - p>>
LessQ(x, y) == x[1] * y[2] < y[1] * x[2]
Height(v, e, f) ==         \* of e over its crossing with f, as a fraction
  LET t == Par(v, e, f) IN <<Ta(v, e)[3] * t[2] + (Hb(v, e)[3] - Ta(v, e)[3]) * t[1], t[2]>>
EarlierE(e, f) == e[1] < f[1] \/ (e[1] = f[1] /\ e[2] < f[2])
XPairs(v) == LET E == Edges(v) IN {p \in E \X E : EarlierE(p[1], p[2]) /\ Crosses(v, p[1], p[2])}

(* ---------------- general position ---------------- *)
Dot(a, b, c) == (b[1]-a[1]) * (c[1]-a[1]) + (b[2]-a[2]) * (c[2]-a[2])
OnSeg(a, b, c) == Ori(a, b, c) = 0 /\ Dot(a, b, c) >= 0 /\ Dot(b, a, c) >= 0
NextIx(v, i, j) == (j % Len(v[i])) + 1
General(v) ==
  LET E == Edges(v) IN
  /\ \A i \in 1..Len(v) : Len(v[i]) >= 3
  /\ \A e \in E : \A w \in E :      \* no vertex on an edge that it is not an end of
       (w # e /\ w # <<e[1], NextIx(v, e[1], e[2])>>) => ~ OnSeg(Ta(v, e), Hb(v, e), Ta(v, w))
  /\ \A e \in E : <<Ta(v, e)[1], Ta(v, e)[2]>> # <<Hb(v, e)[1], Hb(v, e)[2]>>
  \* no two crossings at one place
  /\ LET X == XPairs(v) IN
     /\ \A p, q \in X : (p # q /\ p[1] = q[1]) => LET s == Par(v, p[1], p[2]) t == Par(v, q[1], q[2]) IN s[1]*t[2] # t[1]*s[2]
     /\ \A p, q \in X : (p # q /\ p[2] = q[2]) => LET s == Par(v, p[2], p[1]) t == Par(v, q[2], q[1]) IN s[1]*t[2] # t[1]*s[2]
     /\ \A p, q \in X : (p # q /\ p[1] = q[2]) => LET s == Par(v, p[1], p[2]) t == Par(v, q[2], q[1]) IN s[1]*t[2] # t[1]*s[2]
     /\ \A p \in X : LET s == Height(v, p[1], p[2]) t == Height(v, p[2], p[1]) IN s[1]*t[2] # t[1]*s[2]
\* no two edges on one line (other than neighbours)
NoCollinear(v) ==
  \A e, f \in Edges(v) :
    (/\ EarlierE(e, f)
     /\ f # <<e[1], NextIx(v, e[1], e[2])>> /\ e # <<f[1], NextIx(v, f[1], f[2])>>) =>
       ~ (Ori(Ta(v, e), Hb(v, e), Ta(v, f)) = 0 /\ Ori(Ta(v, e), Hb(v, e), Hb(v, f)) = 0)

(* ---------------- the diagram ---------------- *)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

\* the crossings met by component i, in order: <<edge index, position, crossing number, edge>>
VisitLE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ LessQ(a[2], b[2]))
RECURSIVE InsV(_, _)
InsV(x, s) == IF s = <<>> THEN <<x>> ELSE IF VisitLE(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o InsV(x, Tail(s))
RECURSIVE SortV(_)
SortV(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN InsV(x, SortV(S \ {x}))
Visits(v, X, i) ==
  SortV(UNION {(IF X[k][1][1] = i THEN {<<X[k][1][2], Par(v, X[k][1], X[k][2]), k, 1>>} ELSE {}) \cup
               (IF X[k][2][1] = i THEN {<<X[k][2][2], Par(v, X[k][2], X[k][1]), k, 2>>} ELSE {}) : k \in 1..Len(X)})

\* which of the two strands is on top, and the sign (over x under)
TopIs(v, p) == LET s == Height(v, p[1], p[2]) t == Height(v, p[2], p[1]) IN IF s[1]*t[2] > t[1]*s[2] THEN 1 ELSE 2
CrossDir(v, e, f) == LET a == Ta(v, e) b == Hb(v, e) c == Ta(v, f) d == Hb(v, f)
                     IN (b[1]-a[1]) * (d[2]-c[2]) - (b[2]-a[2]) * (d[1]-c[1])
XSign(v, p) == LET z == CrossDir(v, p[1], p[2]) IN IF (TopIs(v, p) = 1) = (z > 0) THEN 1 ELSE 0

\* crossing k (0-based): over strand leaves at position 0, enters at 2; the lower strand crosses
\* it from right to left at a positive crossing
OutDart(k, over, sg) == 4 * k + (IF over THEN 0 ELSE IF sg = 1 THEN 1 ELSE 3)
InDart(k, over, sg)  == 4 * k + (IF over THEN 2 ELSE IF sg = 1 THEN 3 ELSE 1)

ProjDiagram(v) ==
  LET X   == TLCEval(SetSeq(XPairs(v)))
      n   == Len(X)
  IN IF n = 0 THEN [n |-> 0, t0 |-> 65]
     ELSE
  LET top == TLCEval([k \in 1..n |-> TopIs(v, X[k])])
      sg  == TLCEval([k \in 1..n |-> XSign(v, X[k])])
      VS  == TLCEval([i \in 1..Len(v) |-> Visits(v, X, i)])
      O(w) == OutDart(w[3] - 1, top[w[3]] = w[4], sg[w[3]])
      I(w) == InDart(w[3] - 1, top[w[3]] = w[4], sg[w[3]])
      prs == UNION {{<<O(VS[i][k]), I(VS[i][(k % Len(VS[i])) + 1]), i>> : k \in 1..Len(VS[i])} : i \in 1..Len(v)}
      of  == TLCEval([d \in 0..(4*n-1) |-> CHOOSE p \in prs : p[1] = d \/ p[2] = d])
  IN [n |-> n,
      mate |-> TLCEval([d \in 0..(4*n-1) |-> IF of[d][1] = d THEN of[d][2] ELSE of[d][1]]),
      out  |-> TLCEval([d \in 0..(4*n-1) |-> of[d][1] = d]),
      sg   |-> TLCEval([k \in 0..(n-1) |-> sg[k+1]]),
      tg   |-> TLCEval([d \in 0..(4*n-1) |-> 64 + of[d][3]])]

\* circles that meet no crossing
FreeCircles(v) == LET X == XPairs(v) IN Cardinality({i \in 1..Len(v) : \A p \in X : p[1][1] # i /\ p[2][1] # i})

(* ---------------- another direction ---------------- *)
\* the same curve seen along a nearby direction: k times the picture, sheared by the height
Tilt(v, k, a, b) == [i \in 1..Len(v) |-> [j \in 1..Len(v[i]) |->
                       LET p == v[i][j] IN <<k * p[1] + a * p[3], k * p[2] + b * p[3], p[3]>>]]

CurveHomfly(v) == LET D == ProjDiagram(v) IN PMul(Homfly(D), PPow(Delta, IF D.n = 0 THEN Len(v) - 1 ELSE FreeCircles(v)))
=============================================================================
