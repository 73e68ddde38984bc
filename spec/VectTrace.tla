----------------------------- MODULE VectTrace -----------------------------
EXTENDS Vect, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Is(p) == IF p THEN TRUE ELSE FALSE
Vec(ev) ==
  LET A == ev.A  B == ev.B  C == ev.C  D == ev.D  s == ev.s  t == ev.t
      n == Normal(A, B, C)  m == Normal(A, C, D)
      a == <<A[1], A[2], 0>>  b == <<B[1], B[2], 0>>  c == <<C[1], C[2], 0>>  z == Normal(a, b, c)[3]
      det == Dot(A, Cross(B, C))
  IN
  /\ ev.sum = Add(A, B) /\ ev.diff = Sub(A, B) /\ ev.cross = Cross(A, B) /\ ev.scale = Times(s, A)
  /\ ev.lin = Add(Times(s, A), Times(t, B)) /\ ev.madd = Add(A, Times(s, B)) /\ ev.wei = Add(Times(4 - s, A), Times(s, B))
  /\ ev.mul = [i \in 1..3 |-> A[i] * B[i]] /\ ev.build = <<s, t, s - t>>
  /\ (ev.divok = 1) = (\A i \in 1..3 : B[i] # 0)
  /\ (ev.divok = 1 => \A i \in 1..3 : Size((ev.div[i] * B[i]) - (u * A[i])) <= Size(B[i]))
  /\ ev.dot = Dot(A, B) /\ ev.sq = Sq(Sub(A, B))
  /\ Size((ev.norm * ev.norm) - (1000000 * Sq(A))) <= (2 * ev.norm) + 1
  /\ Size((ev.dist * ev.dist) - (1000000 * Sq(Sub(A, B)))) <= (2 * ev.dist) + 1
  /\ ev.eq = <<IF A = B THEN 1 ELSE 0, 1, 0>>
  /\ (ev.nok = 1) = (A # Zero) /\ (ev.nok = 1 => UnitOf(ev.unit, A))
  /\ (ev.aok = 1) = (A # Zero /\ B # Zero) /\ (ev.aok = 1 => ev.arange = 1 /\ Direction(ev.ang, Dot(A, B) * 100, Hundredths(Sq(Cross(A, B)))))
  /\ (ev.pok = 1) = (n # Zero) /\ (ev.pok = 1 => UnitOf(ev.nor, n))
  /\ (ev.dok = 1) = (n # Zero /\ m # Zero) /\ ev.dnull = 1
  /\ (ev.dok = 1 => ev.drange = 1 /\ Dihedral(ev.dih, A, B, C, D))
  /\ (ev.tok = 1) = (det # 0)
  /\ (det # 0 => \A x \in {<<A, D>>, <<B, C>>, <<C, A>>} : Size(Dot(x[1], ev.three) - (u * Dot(x[1], x[2]))) <= Sum1(x[1]))
  /\ LET f == <<Normal(A, B, C), Normal(A, C, D), Normal(A, D, B), Normal(B, D, C)>>
         area == Hundredths(Sq(f[1])) + Hundredths(Sq(f[2])) + Hundredths(Sq(f[3])) + Hundredths(Sq(f[4]))
     IN area > 0 => Size((ev.inr * area) - (1000000 * Size(Dot(f[1], Sub(D, A))))) <= (4 * ev.inr) + area
  /\ (ev.cok = 1) = (z # 0)
  /\ (z # 0 => /\ \A x \in {b, c} : Size((2 * Dot(ev.cen, Sub(x, a))) - (u * (Sq(x) - Sq(a)))) <= 2 * Sum1(Sub(x, a))
               /\ ev.cen[3] = 0 /\ ev.cen2 = ev.cen
               /\ LET e == [i \in 1..3 |-> (ev.cen[i] - (u * a[i])) \div 100]  r == ev.crad \div 100 IN Size((r * r) - Sq(e)) <= (8 * r) + 10)
  /\ ((A[3] # 0 \/ B[3] # 0 \/ C[3] # 0) => ev.cflat = 0)
Turn(ev) ==
  LET m2 == Sq(ev.ax)  m == Root(m2)  d == (ev.k - ev.m) % 24  V == ev.V
      W == Add(Add(Times(ev.c * m2, V), Times((ev.r - ev.c) * Dot(ev.ax, V), ev.ax)), Times(ev.s * m, Cross(ev.ax, V))) IN
  /\ Size(ev.ad - (u * (IF d <= 12 THEN d ELSE 24 - d))) <= 1
  /\ (m2 = 0 => ev.W = Times(u, V))
  /\ (m2 # 0 => \A i \in 1..3 : Size(((ev.r * m2) * ev.W[i]) - (u * W[i])) <= ev.r * m2)
Dihedrals(ev) ==
  LET n == Len(ev.v)  Q == TLCEval(IF n <= 12 THEN Quads(n, 1, 4) ELSE [i \in 1..(n - 3) |-> <<1, 2, 3, 3 + i>>])     \* large curves are only asked for the first few
      all == ((n * (n - 1)) * ((n - 2) * (n - 3))) \div 12
      want(i) == LET x == Q[((i - 1) \div 2) + 1]  a == ev.v[x[1]]  b == ev.v[x[2]]  c == ev.v[x[3]]  d == ev.v[x[4]] IN
                 IF i % 2 = 1 THEN <<Normal(a, b, d), Normal(b, c, d)>> ELSE <<Normal(a, b, c), Normal(c, d, a)>>
  IN /\ ev.m = (IF ev.cap = 0 \/ ev.cap > all THEN all ELSE ev.cap) /\ Len(ev.a) = ev.m
     /\ \A i \in 1..ev.m : LET w == want(i) IN IF w[1] = Zero \/ w[2] = Zero THEN ev.a[i] = 99999 ELSE ev.a[i] <= u /\ Cosine(ev.a[i], w[1], w[2])
Step(ev) == CASE ev.op = "vec" -> Vec(ev)
              [] ev.op = "turn" -> Turn(ev)
              [] ev.op = "dihedrals" -> Dihedrals(ev)
              [] ev.op = "reset" -> TRUE
Init == l = 1
Next == l <= Len(Trace) /\ Is(Step(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
