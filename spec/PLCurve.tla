------------------------------ MODULE PLCurve ------------------------------
(* Piecewise-linear curves: what a plCurve is, and what the editing calls do to it.

   A curve is a sequence of strands [open, vt, clr] and a set of vertex constraints
   [c, v, k, x] (component, vertex, kind, vectors) with at most one element per vertex.
   Components and vertices of constraints are numbered from 0 as in the code; coordinates are
   integers, in units of 1/1024.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Unit == 1024
NoCurve == [cp |-> <<>>, cst |-> {}]
Abs(n) == IF n < 0 THEN -n ELSE n
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol

(* ---- vectors ---- *)
Add(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Sub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Mul(s, a) == <<s*a[1], s*a[2], s*a[3]>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
Sq(a) == Dot(a, a)
Zero == <<0, 0, 0>>
VNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol) /\ Near(a[3], b[3], tol)
Div(a, d) == <<a[1] \div d, a[2] \div d, a[3] \div d>>
Divisible(a, d) == a[1] % d = 0 /\ a[2] % d = 0 /\ a[3] % d = 0

(* ---- the concrete structure, as logged ---- *)
Nv(s) == Len(s.vt)
HiddenOK(s) ==
  LET n == Nv(s) IN
  /\ n >= 1
  /\ (n < 3 => s.open = 1)
  /\ n = 1 \/ IF s.open = 1 THEN s.hid = <<s.vt[2], s.vt[n-1]>> ELSE s.hid = <<s.vt[n], s.vt[1]>>
Runs(o) == UNION {{<<i, j>> : j \in 0..(o.cst[i].n - 1)} : i \in 1..Len(o.cst)}
CstOf(o) == {[c |-> o.cst[p[1]].c, v |-> o.cst[p[1]].v + p[2], k |-> o.cst[p[1]].k, x |-> o.cst[p[1]].x] : p \in Runs(o)}
\* the list of constraints is a function from vertices to constraints
ListOK(o) ==
  /\ \A i \in 1..Len(o.cst) :
       LET q == o.cst[i] IN
       /\ q.c \in 0..(Len(o.cp)-1) /\ q.n >= 1 /\ q.v >= 0 /\ q.v + q.n <= Nv(o.cp[q.c+1])
       /\ q.k \in 1..3 /\ (q.k = 1 => q.n = 1 /\ q.x[2] = Zero)
       /\ (q.k = 3 => q.x[2][2] = 0 /\ q.x[2][3] = 0)
  /\ Cardinality(Runs(o)) = Cardinality({<<o.cst[p[1]].c, o.cst[p[1]].v + p[2]>> : p \in Runs(o)})
WF(o) == (\A i \in 1..Len(o.cp) : HiddenOK(o.cp[i])) /\ ListOK(o)
Strand(s) == [open |-> s.open, vt |-> s.vt, clr |-> s.clr]
View(o) == [cp |-> [i \in 1..Len(o.cp) |-> Strand(o.cp[i])], cst |-> CstOf(o)]

(* ---- making a curve from its description (a flat sequence of numbers on the grid) ---- *)
RECURSIVE Strands(_,_,_)
Take(a, at, n, w) == [j \in 1..n |-> [k \in 1..w |-> a[at + (j-1)*w + k - 1]]]
Strands(a, at, left) ==
  IF left = 0 THEN <<>>
  ELSE LET nv == a[at] \div Unit  op == a[at+1] \div Unit  cc == a[at+2] \div Unit  v == at + 3  c == v + 3*nv
       IN <<[open |-> IF nv < 3 THEN 1 ELSE op, vt |-> Take(a, v, nv, 3), clr |-> Take(a, c, cc, 4)]>> \o Strands(a, c + 4*cc, left - 1)
FromArgs(a) == [cp |-> Strands(a, 2, a[1] \div Unit), cst |-> {}]

(* ---- constraints ---- *)
In(q, c, v, n) == q.c = c /\ q.v \in v..(v+n-1)
Unconstrain(L, c, v, n) == [L EXCEPT !.cst = {q \in @ : ~In(q, c, v, n)}]
Constrain(L, c, v, n, k, x) == [L EXCEPT !.cst = {q \in @ : ~In(q, c, v, n)} \cup {[c |-> c, v |-> w, k |-> k, x |-> x] : w \in v..(v+n-1)}]
Matching(L, k, x) == {q \in L.cst : q.k = k /\ q.x = x}
Removed(L, k, x) == [L EXCEPT !.cst = @ \ Matching(L, k, x)]
At(L, c, v) == {q \in L.cst : q.c = c /\ q.v = v}

(* ---- components and colours ---- *)
Seg(s, a, b) == [i \in 1..Max(0, b - a + 1) |-> s[a + i - 1]]
MkStrand(op, vt, clr) == [open |-> IF Len(vt) < 3 THEN 1 ELSE op, vt |-> vt, clr |-> clr]
AddComponent(L, at, s) ==
  [cp |-> Seg(L.cp, 1, at) \o <<s>> \o Seg(L.cp, at + 1, Len(L.cp)),
   cst |-> {IF q.c >= at THEN [q EXCEPT !.c = @ + 1] ELSE q : q \in L.cst}]
DropComponent(L, c) ==
  [cp |-> Seg(L.cp, 1, c) \o Seg(L.cp, c + 2, Len(L.cp)),
   cst |-> {IF q.c > c THEN [q EXCEPT !.c = @ - 1] ELSE q : q \in {w \in L.cst : w.c # c}}]
Black == <<0, 0, 0, 0>>
Filler == <<512, 512, 512, 1024>>
Resized(clr, cc) ==
  IF cc = 0 THEN <<>>
  ELSE IF Len(clr) = 0 THEN [i \in 1..cc |-> Black]
  ELSE IF Len(clr) = 1 THEN [i \in 1..cc |-> clr[1]]
  ELSE [i \in 1..cc |-> IF i <= Len(clr) THEN clr[i] ELSE Filler]
\* an arc of a strand: the n vertices from start (counted from 0) on, with their colours
Arc(s, start, n) ==
  LET m == Nv(s)  per == Len(s.clr) = m
      cc == IF per THEN n ELSE Min(Len(s.clr), n)
  IN [open |-> 1, vt |-> [i \in 1..n |-> s.vt[((start + i - 1) % m) + 1]],
      clr |-> [i \in 1..cc |-> IF per THEN s.clr[((start + i - 1) % m) + 1] ELSE s.clr[i]]]
DeleteArc(L, c, v1, v2) ==
  LET s == L.cp[c+1]  n == Nv(s)
      pieces == IF s.open = 1
                THEN IF v1 > v2 THEN <<s>>
                     ELSE (IF v1 > 0 THEN <<Arc(s, 0, v1)>> ELSE <<>>) \o (IF v2 < n - 1 THEN <<Arc(s, v2 + 1, n - v2 - 1)>> ELSE <<>>)
                ELSE IF v1 = v2 + 1 \/ (v1 <= 0 /\ v2 >= n - 1) THEN <<>>
                     ELSE IF v1 <= v2 THEN <<Arc(s, v2 + 1, n - (v2 - v1 + 1))>>
                     ELSE <<Arc(s, v2 + 1, v1 - v2 - 1)>>
  IN [cp |-> Seg(L.cp, 1, c) \o pieces \o Seg(L.cp, c + 2, Len(L.cp)), cst |-> {}]

(* ---- transformations ---- *)
MapVerts(L, F(_)) == [i \in 1..Len(L.cp) |-> [L.cp[i] EXCEPT !.vt = [j \in 1..Len(@) |-> F(@[j])]]]
MapCst(L, G(_,_)) == {[q EXCEPT !.x = G(q.k, q.x)] : q \in L.cst}
\* scaling takes every constraint along: points and offsets scale, directions and normals stay
Scaled(L, a, b) ==
  LET S(v) == Div(Mul(a, v), b)  IN
  [cp |-> MapVerts(L, S), cst |-> {[q EXCEPT !.x = IF q.k = 1 THEN <<S(q.x[1]), q.x[2]>> ELSE <<q.x[1], S(q.x[2])>>] : q \in L.cst}]
ScaleExact(L, b) == /\ \A i \in 1..Len(L.cp) : \A j \in 1..Nv(L.cp[i]) : Divisible(L.cp[i].vt[j], b)
                    /\ \A q \in L.cst : Divisible(q.x[1], b) /\ Divisible(q.x[2], b)
Translated(L, t) ==
  LET T(v) == Add(v, t)
      Off(n) == (n[1] * t[1] + n[2] * t[2] + n[3] * t[3]) \div Unit
  IN [cp |-> MapVerts(L, T),
      cst |-> {[q EXCEPT !.x = IF q.k = 1 THEN <<T(q.x[1]), q.x[2]>>
                               ELSE IF q.k = 2 THEN <<q.x[1], T(q.x[2])>>
                               ELSE <<q.x[1], <<q.x[2][1] + Off(q.x[1]), 0, 0>> >>] : q \in L.cst}]
PermOf(p, j) == LET I == {i \in 1..Len(p) : p[i] = j} IN
                IF I = {} THEN j ELSE p[1 + (CHOOSE i \in I : \A k \in I : i <= k)]
Flip(v) == <<v[1], v[2], -v[3]>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Whitten(L, m, eps, p) ==
  LET nc == Len(L.cp)
      F(v) == IF m = -1 THEN Flip(v) ELSE v
      Str(i) == LET s == L.cp[PermOf(p, i-1) + 1]  vt == [j \in 1..Nv(s) |-> F(s.vt[j])]
                IN [s EXCEPT !.vt = IF eps[i] = -1 THEN Rev(vt) ELSE vt,
                             !.clr = IF eps[i] = -1 /\ Len(@) = Nv(s) THEN Rev(@) ELSE @]
      Inv(c) == CHOOSE i \in 0..(nc-1) : PermOf(p, i) = c
      X(q) == IF q.k = 2 THEN <<F(q.x[1]), F(q.x[2])>> ELSE <<F(q.x[1]), q.x[2]>>
  IN [cp |-> [i \in 1..nc |-> Str(i)],
      cst |-> {[c |-> Inv(q.c), k |-> q.k, x |-> X(q),
                v |-> IF eps[Inv(q.c)+1] = -1 THEN Nv(L.cp[q.c+1]) - 1 - q.v ELSE q.v] : q \in L.cst}]

(* Rotation about the axis A/m (m = |A|) by the angle with cosine c/d and sine s/d:
   d m^2 v' = c m^2 v + s m (A x v) + (d-c) (A.v) A ; b is the tolerance on the grid.  *)
RotNear(A, m, c, s, d, v, w, tol) ==
  VNear(Mul(d*m*m, w), Add(Add(Mul(c*m*m, v), Mul(s*m, Cross(A, v))), Mul((d-c)*Dot(A, v), A)), tol*d*m*m)
ProjNear(A, v, w, tol) == VNear(Mul(Sq(A), w), Sub(Mul(Sq(A), v), Mul(Dot(v, A), A)), tol*Sq(A))
SameFrame(L, M) == /\ M.cst = L.cst /\ Len(M.cp) = Len(L.cp)
                   /\ \A i \in 1..Len(L.cp) : M.cp[i].open = L.cp[i].open /\ M.cp[i].clr = L.cp[i].clr /\ Nv(M.cp[i]) = Nv(L.cp[i])
AllVerts(L) == {<<i, j>> \in (1..Len(L.cp)) \X (1..200) : j <= Nv(L.cp[i])}
V(L, p) == L.cp[p[1]].vt[p[2]]
Det(a, b, c) == Dot(a, Cross(b, c))
Coarse(v) == Div(v, 64)

(* ---- distance to a constraint ---- *)
\* p is the point of the line x[1] t + x[2] (resp. plane) nearest to v: exact up to the grid
NearestOn(q, v, p, tol) ==
  LET t == Div(q.x[1], Unit) IN
  IF q.k = 1 THEN p = q.x[1]
  ELSE LET size == Abs(t[1]) + Abs(t[2]) + Abs(t[3]) IN
       IF q.k = 2
       THEN /\ Near(Dot(Sub(v, p), t), 0, tol * size)
            /\ VNear(Cross(Sub(p, q.x[2]), t), Zero, tol * size)
       ELSE /\ Near(Dot(p, t), q.x[2][1], tol * size)
            /\ VNear(Cross(Sub(v, p), t), Zero, tol * size)
\* the squared distance of v to the constraint as a fraction <<num, den>>, for whole-number data
Dist2(q, v) ==
  LET w == Div(v, Unit)  a == Div(q.x[1], Unit)  b == Div(q.x[2], Unit) IN
  IF q.k = 1 THEN <<Sq(Sub(w, a)), 1>>
  ELSE IF q.k = 2 THEN <<Sq(Cross(Sub(w, b), a)), Sq(a)>>
  ELSE <<(Dot(w, a) - b[1]) * (Dot(w, a) - b[1]), Sq(a)>>
Scaled2(f) == (f[1] * Unit) \div f[2]

(* ---- new vertices of a doubled strand lie on the edges around the old vertex ---- *)
OnSegment(p, a, b, tol) ==
  LET e == Sub(b, a)  size == 2 * (Abs(e[1]) + Abs(e[2]) + Abs(e[3])) + 8 IN
  /\ VNear(Cross(Sub(p, a), e), Zero, tol * size)
  /\ Dot(Sub(p, a), e) >= -(tol * size) /\ Dot(Sub(b, p), e) >= -(tol * size)
DoubledStrand(s, t) ==
  LET n == Nv(s)
      Prev(j) == IF j > 1 THEN s.vt[j-1] ELSE s.vt[n]
      Succ(j) == IF j < n THEN s.vt[j+1] ELSE s.vt[1]
  IN /\ Nv(t) = 2 * n /\ t.open = s.open
     /\ t.clr = (IF Len(s.clr) <= 1 THEN s.clr ELSE [i \in 1..(2*n) |-> s.clr[(i + 1) \div 2]])
     /\ \A j \in 1..n :
          IF s.open = 1 /\ j = 1 THEN t.vt[1] = s.vt[1] /\ OnSegment(t.vt[2], s.vt[1], s.vt[2], 2)
          ELSE IF s.open = 1 /\ j = n THEN t.vt[2*n] = s.vt[n] /\ OnSegment(t.vt[2*n-1], s.vt[n-1], s.vt[n], 2)
          ELSE OnSegment(t.vt[2*j-1], Prev(j), s.vt[j], 2) /\ OnSegment(t.vt[2*j], s.vt[j], Succ(j), 2)

(* ---- counting and measuring ---- *)
RECURSIVE SumTo(_,_)
SumTo(F, n) == IF n = 0 THEN 0 ELSE F[n] + SumTo(F, n - 1)
Sum(F) == SumTo(F, Len(F))
Edges(s) == IF s.open = 1 THEN Nv(s) - 1 ELSE Nv(s)
EdgeVec(s, j) == Sub(IF j < Nv(s) THEN s.vt[j+1] ELSE s.vt[1], s.vt[j])
RECURSIVE Root(_,_,_)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46340)
Whole(v) == Div(v, Unit)
ELen(s, j) == ISqrt(Sq(Whole(EdgeVec(s, j))))
ELens(s) == [j \in 1..Edges(s) |-> ELen(s, j)]
Base(L, i) == SumTo([k \in 1..Len(L.cp) |-> Nv(L.cp[k])], i - 1)       \* vertices before component i (from 1)
VNum(L, i, k) == Base(L, i) + (IF L.cp[i].open = 1 THEN Max(0, Min(k, Nv(L.cp[i]) - 1)) ELSE k % Nv(L.cp[i]))
SubArc(s, a, b) ==       \* a, b from 0
  LET e == ELens(s)  lo == Min(a, b)  hi == Max(a, b)
      in == Sum([j \in 1..(hi-lo) |-> e[lo + j]])
  IN IF s.open = 1 THEN in ELSE Min(in, Sum(e) - in)
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
\* angle between two nonzero lattice directions, in right angles (99: not a multiple of one; 0 when undefined)
Quarters(a, b) ==
  IF a = Zero \/ b = Zero THEN 0
  ELSE IF Cross(a, b) = Zero THEN (IF Dot(a, b) > 0 THEN 0 ELSE 2)
  ELSE IF Dot(a, b) = 0 THEN 1 ELSE 99
Turn(s, j) == IF s.open = 1 /\ (j = 1 \/ j = Nv(s)) THEN 0
              ELSE Quarters(Whole(EdgeVec(s, IF j > 1 THEN j - 1 ELSE Nv(s))), Whole(EdgeVec(s, j)))
Torsion(s, j) ==         \* at edge j, between the edges before and after it
  LET n == Nv(s)  p == Whole(EdgeVec(s, IF j > 1 THEN j-1 ELSE n))  e == Whole(EdgeVec(s, j))  f == Whole(EdgeVec(s, IF j < n THEN j+1 ELSE 1))
  IN Quarters(Cross(p, e), Cross(e, f))
Torsions(s) == IF s.open = 1 THEN [j \in 1..Max(0, Nv(s)-3) |-> Torsion(s, j + 1)] ELSE [j \in 1..Nv(s) |-> Torsion(s, j)]
TangentOK(s, j, w) ==    \* unit, along v[j+1]-v[j-1] (one-sided at the ends of an open strand)
  LET n == Nv(s)
      d == Whole(IF s.open = 1 /\ j = 1 THEN Sub(s.vt[2], s.vt[1])
               ELSE IF s.open = 1 /\ j = n THEN Sub(s.vt[n], s.vt[n-1])
               ELSE Sub(IF j < n THEN s.vt[j+1] ELSE s.vt[1], IF j > 1 THEN s.vt[j-1] ELSE s.vt[n]))
  IN d = Zero \/ (/\ Near(Sq(w), Unit*Unit, 6000) /\ Dot(w, d) > 0
                  /\ VNear(Cross(w, d), Zero, 2 * (Abs(d[1]) + Abs(d[2]) + Abs(d[3]))))
=============================================================================
