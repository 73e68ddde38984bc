--------------------------------- MODULE Sym ---------------------------------
(* Symmetry groups of curves (plCurve.h, "symmetries").

   A point set P is a sequence of points in units of 1/256 (all vertices of the curve in order).
   A group is [m, t, inv]: the i-th element maps space by the matrix m[i] (entries in units of
   1/65536) and sends vertex v to vertex t[i][v]; inv[i] is the position of its inverse.        *)
EXTENDS PLCurve

One == 65536
CosTab == <<65536, 65446, 65177, 64729, 64104, 63303, 62328, 61183, 59870, 58393, 56756, 54963, 53020, 50931, 48703, 46341, 43852, 41243, 38521, 35693, 32768, 29753, 26656, 23486, 20252, 16962, 13626, 10252, 6850, 3430, 0>>              \* cosines of 0, 3, ..., 90 degrees
RECURSIVE CosA(_)
CosA(k) == LET j == k % 120 IN IF j <= 30 THEN CosTab[j + 1] ELSE IF j <= 60 THEN -CosTab[61 - j] ELSE CosA(120 - j)
SinA(k) == CosA(k + 90)
Rnd(x, d) == (x + d \div 2) \div d
Idm == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN One ELSE 0]]
CrossM(a) == << <<0, -a[3], a[2]>>, <<a[3], 0, -a[1]>>, <<-a[2], a[1], 0>> >>
\* rotation by 3k degrees around a (integral, of integral length)
Rotation(a, k) == LET q == Sq(a)  m == ISqrt(q)  C == CrossM(a) IN
  [i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN CosA(k) ELSE 0) + Rnd((One - CosA(k)) * a[i] * a[j], q) + Rnd(SinA(k) * C[i][j], m)]]
Reflection(a) == LET q == Sq(a) IN [i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN One ELSE 0) - Rnd(2 * One * a[i] * a[j], q)]]
Diag(x, y, z) == << <<x * One, 0, 0>>, <<0, y * One, 0>>, <<0, 0, z * One>> >>

Apply(M, v) == TLCEval([i \in 1..3 |-> Rnd(M[i][1] * v[1] + M[i][2] * v[2] + M[i][3] * v[3], One)])
MulQ(a, b) == ((a \div 256) * b) \div 256 + ((a % 256) * b) \div One           \* a * b / One without overflow
MatMul(A, B) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> MulQ(A[i][1], B[1][j]) + MulQ(A[i][2], B[2][j]) + MulQ(A[i][3], B[3][j])]])
Transp(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]
MNear(A, B, tol) == \A i, j \in 1..3 : Near(A[i][j], B[i][j], tol)

(* ---- the groups on offer ---- *)
Elements(kind, a, n) ==
  IF kind = "rot" THEN TLCEval([i \in 1..n |-> TLCEval(Rotation(a, (i - 1) * (120 \div n)))])
  ELSE IF kind = "ref" THEN <<Idm, Reflection(a)>>
  ELSE <<Diag(1, 1, 1), Diag(-1, 1, 1), Diag(1, -1, 1), Diag(1, 1, -1), Diag(-1, -1, 1), Diag(-1, 1, -1), Diag(1, -1, -1), Diag(-1, -1, -1)>>

(* ---- which vertex is meant by the image of a vertex ---- *)
Candidates(P, M, v) ==
  LET x == Apply(M, P[v])
      D == TLCEval([w \in 1..Len(P) |-> Sq(Sub(P[w], x))])
      m == CHOOSE d \in {D[w] : w \in 1..Len(P)} : \A w \in 1..Len(P) : d <= D[w]
  IN {w \in 1..Len(P) : D[w] <= m + 6 * ISqrt(m) + 12}
Cands(P, M) == TLCEval([v \in 1..Len(P) |-> Candidates(P, M, v)])
Clashes(c) == \E v, w \in DOMAIN c : v < w /\ c[v] = c[w] /\ Cardinality(c[v]) = 1
Clear(c) == (\A v \in DOMAIN c : Cardinality(c[v]) = 1) /\ ~Clashes(c)

(* ---- groups ---- *)
\* the vertex maps compose as the matrices do (approximate symmetries may choose otherwise: then no average is prescribed)
IsAction(G) == \A i, j \in 1..Len(G.m) :
  LET M == TLCEval(MatMul(G.m[j], G.m[i]))  c == TLCEval([v \in 1..Len(G.t[1]) |-> G.t[j][G.t[i][v]]]) IN
  \E k \in 1..Len(G.m) : G.t[k] = c /\ MNear(G.m[k], M, 40)
GroupOK(G, E, tol) ==      \* the elements are those expected, in some order, and the inverses are right
  /\ Len(G.m) = Len(E) /\ Len(G.t) = Len(E) /\ Len(G.inv) = Len(E)
  /\ \A i \in 1..Len(E) : \E j \in 1..Len(G.m) : MNear(E[i], G.m[j], tol)
  /\ \A i \in 1..Len(E) : G.inv[i] \in 1..Len(E) /\ MNear(MatMul(G.m[G.inv[i]], G.m[i]), Idm, 40)
Sum3(S) == [k \in 1..3 |-> Sum([i \in 1..Len(S) |-> S[i][k]])]
Average(G, P) == TLCEval([v \in 1..Len(P) |-> LET s == Sum3(TLCEval([i \in 1..Len(G.m) |-> Apply(G.m[G.inv[i]], P[G.t[i][v]])])) IN [k \in 1..3 |-> Rnd(s[k], Len(G.m))]])
Error(G, P, i) == LET D == TLCEval({Sq(Sub(Apply(G.m[i], P[v]), P[G.t[i][v]])) : v \in 1..Len(P)}) IN CHOOSE d \in D : \A e \in D : e <= d
PNear(P, Q, tol) == Len(P) = Len(Q) /\ \A v \in 1..Len(P) : VNear(P[v], Q[v], tol)
=============================================================================
