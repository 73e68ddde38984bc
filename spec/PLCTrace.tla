------------------------------ MODULE PLCTrace ------------------------------
(* Trace validation for curves: every recorded call must be a transition of the specification. *)
EXTENDS PLCFile, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES crv, ex, l       \* ex[r]: the numbers of curve r are all on the grid
tvars == <<crv, ex, l>>
Regs == 0..5
Is(p) == IF p THEN TRUE ELSE FALSE

Init == crv = [r \in Regs |-> NoCurve] /\ ex = [r \in Regs |-> TRUE] /\ l = 1

\* the observed curve is well formed, nothing else changed, and it is the one the specification gives
Becomes(ev, L) == Is(ev.same = 1 /\ WF(ev.out) /\ View(ev.out) = L) /\ crv' = [crv EXCEPT ![ev.r] = L] /\ ex' = [ex EXCEPT ![ev.r] = (ev.ix = 0)]
\* the same, and no number left the grid
Exactly(ev, L) == Is(ex[ev.r] => ev.ix = 0) /\ Becomes(ev, L)
\* the observed curve is accepted as it is, given that P holds of it
Observed(ev, p) == Is(ev.same = 1 /\ WF(ev.out) /\ p) /\ crv' = [crv EXCEPT ![ev.r] = View(ev.out)] /\ ex' = [ex EXCEPT ![ev.r] = (ev.ix = 0)]
Query(ev, p) == Is(ev.same = 1 /\ WF(ev.out) /\ View(ev.out) = crv[ev.r] /\ p) /\ UNCHANGED <<crv, ex>>
X2(a) == <<<<a[1], a[2], a[3]>>, <<a[4], a[5], a[6]>>>>

AskedOK(L, q) ==
  LET S == At(L, q.c, q.v) IN
  /\ q.b = q.b2 /\ q.b = (IF S = {} THEN 0 ELSE 1)
  /\ S # {} => LET w == CHOOSE w \in S : TRUE IN q.k = w.k /\ q.x = w.x

\* every constrained vertex moves to the nearest admissible point, the others stay
FixedUp(L, M) ==
  /\ SameFrame(L, M)
  /\ \A p \in AllVerts(L) :
       LET S == At(L, p[1]-1, p[2]-1) IN
       IF S = {} THEN V(M, p) = V(L, p) ELSE NearestOn(CHOOSE q \in S : TRUE, V(L, p), V(M, p), 2)
Rotated(L, M, A, m, c, s, d) == SameFrame(L, M) /\ \A p \in AllVerts(L) : RotNear(A, m, c, s, d, V(L, p), V(M, p), 2)
\* the axis A/m points to +z afterwards, and the motion is a rotation
TurnedUp(L, M, A, m) ==
  /\ SameFrame(L, M)
  /\ \A p \in AllVerts(L) : /\ Near(m * V(M, p)[3], Dot(A, V(L, p)), 2 * m)
                            /\ \A q \in AllVerts(L) : Near(Dot(Div(V(M, p), 8), Div(V(M, q), 8)), Dot(Div(V(L, p), 8), Div(V(L, q), 8)), 12000)
  /\ \A i \in 1..Len(L.cp) : \A j \in 1..(Nv(L.cp[i]) - 2) :
       LET t == <<L.cp[i].vt[j], L.cp[i].vt[j+1], L.cp[i].vt[j+2]>>  u == <<M.cp[i].vt[j], M.cp[i].vt[j+1], M.cp[i].vt[j+2]>>
           a == Det(Coarse(t[1]), Coarse(t[2]), Coarse(t[3]))  b == Det(Coarse(u[1]), Coarse(u[2]), Coarse(u[3]))
       IN Abs(a) < 200000 \/ (a > 0 <=> b > 0)
Folded(L, M, c, v0, v1, co, si, d) ==
  LET s == L.cp[c+1]  t == M.cp[c+1]  n == Nv(s)
      lo == Min(v0, v1)  hi == Max(v0, v1)
      P(k) == IF k = -1 THEN (IF s.open = 1 THEN s.vt[2] ELSE s.vt[n]) ELSE IF k = n THEN (IF s.open = 1 THEN s.vt[n-1] ELSE s.vt[1]) ELSE s.vt[k+1]
      A == Whole(Sub(P(hi), P(lo)))  m == ISqrt(Sq(A))
  IN /\ SameFrame(L, M)
     /\ \A i \in 1..Len(L.cp) : i # c + 1 => M.cp[i] = L.cp[i]
     /\ \A j \in 0..(n-1) : IF j > lo /\ j < hi
                            THEN m*m = Sq(A) => RotNear(A, m, co, si, d, Sub(s.vt[j+1], P(lo)), Sub(t.vt[j+1], P(lo)), 3)
                            ELSE t.vt[j+1] = s.vt[j+1]
Perturbed(L, M, rad) ==
  /\ SameFrame(L, M)
  /\ \A p \in AllVerts(L) : IF At(L, p[1]-1, p[2]-1) # {} THEN V(M, p) = V(L, p)
                            ELSE Sq(Sub(V(M, p), V(L, p))) <= (rad + 2) * (rad + 2)
NumsOK(L, ev) ==
  LET nc == Len(L.cp)  E == Sum([i \in 1..nc |-> Edges(L.cp[i])])  N == Sum([i \in 1..nc |-> Nv(L.cp[i])]) IN
  /\ ev.ne = E /\ ev.e = E /\ ev.e0 = E /\ ev.nv = N
  /\ ev.ce = [i \in 1..nc |-> Edges(L.cp[i])]
  /\ \A i \in 1..nc : \A k \in (-2*Nv(L.cp[i]))..(2*Nv(L.cp[i])) : ev.num[i][k + 2*Nv(L.cp[i]) + 1] = VNum(L, i, k)
  /\ Len(ev.inv) = N
  /\ \A i \in 1..nc : \A j \in 0..(Nv(L.cp[i])-1) : ev.inv[Base(L, i) + j + 1] = <<i - 1, j>>
\* four times the squared cross product of the edges at a vertex: what the MinRad curvature has above its fraction line (-1: the edges turn straight back)
MinRad(s, j) ==
  IF s.open = 1 /\ (j = 1 \/ j = Nv(s)) THEN 0
  ELSE LET e == Whole(EdgeVec(s, IF j > 1 THEN j - 1 ELSE Nv(s)))  f == Whole(EdgeVec(s, j)) IN
       IF Cross(e, f) = Zero /\ Dot(e, f) <= 0 THEN -1 ELSE 4 * Sq(Cross(e, f))
MeasOK(L, ev) ==
  LET nc == Len(L.cp)
      cl == TLCEval([i \in 1..nc |-> ELens(L.cp[i])])
      tot == [i \in 1..nc |-> Sum(cl[i])]
      all == Sum(tot)
      every == UNION {{cl[i][j] : j \in 1..Len(cl[i])} : i \in 1..nc}
      P == AllVerts(L)
      N == Cardinality(P)
      W == [p \in P |-> Whole(V(L, p))]
      flat == [i \in 1..N |-> LET c == MinOf({k \in 1..nc : i <= Base(L, k+1)}) IN Whole(L.cp[c].vt[i - Base(L, c)])]
      com == <<Sum([i \in 1..N |-> flat[i][1]]), Sum([i \in 1..N |-> flat[i][2]]), Sum([i \in 1..N |-> flat[i][3]])>>
      Chord(s, k) == IF s.open = 1 THEN Sum([j \in 1..(Nv(s)-k) |-> Sq(Whole(Sub(s.vt[j+k], s.vt[j])))])
                     ELSE Sum([j \in 1..Nv(s) |-> Sq(Whole(Sub(s.vt[((j+k-1) % Nv(s)) + 1], s.vt[j])))])
  IN /\ ev.ix <= 1
     /\ ev.len = Unit * all /\ ev.len0 = ev.len /\ ev.cl = [i \in 1..nc |-> Unit * tot[i]]
     /\ \A i \in 1..nc : \A a, b \in 0..(Nv(L.cp[i])-1) : ev.sub[i][a+1][b+1] = Unit * SubArc(L.cp[i], a, b)
     /\ \A i \in 1..nc : \A a \in 0..(Nv(L.cp[i])-1) :
          ev.s[i][a+1] = Unit * (SumTo(tot, i - 1) + SumTo(cl[i], a))
     /\ (every # {} => ev.st[1] = Unit * MaxOf(every) /\ ev.st[2] = Unit * MinOf(every))
     /\ ev.st[3] = Unit * all
     /\ ev.st[4] = Unit * Sum([i \in 1..nc |-> Sum([j \in 1..Len(cl[i]) |-> cl[i][j] * cl[i][j]])])
     /\ ev.dia2 = Unit * MaxOf({Sq(Sub(W[p], W[q])) : p, q \in P})
     /\ ev.com = Mul(Unit, com)
     /\ ev.gyr = Unit * (N * Sum([i \in 1..N |-> Sq(flat[i])]) - Sq(com))
     /\ \A i \in 1..nc : ev.chord[i] = [k \in 1..(Nv(L.cp[i])-1) |-> Unit * Chord(L.cp[i], k)]
     /\ \A i \in 1..nc : ev.mr[i] = [j \in 1..Nv(L.cp[i]) |-> MinRad(L.cp[i], j)]
AnglesOK(L, ev) ==
  LET nc == Len(L.cp)
      K == [i \in 1..nc |-> Sum([j \in 1..Nv(L.cp[i]) |-> Turn(L.cp[i], j)])]
      T == [i \in 1..nc |-> Sum(Torsions(L.cp[i]))]
  IN /\ ev.ck = K /\ ev.ct = T /\ ev.k = <<Sum(K), Sum(K)>> /\ ev.t = <<Sum(T), Sum(T)>>
     /\ \A i \in 1..nc : \A j \in 1..Nv(L.cp[i]) : ev.turn[i][j] = Turn(L.cp[i], j) /\ TangentOK(L.cp[i], j, ev.tan[i][j])

\* reading: what the text says, or an error; never something else
ReadOK(ev) ==
  LET p == Parse(ev.items) IN
  /\ ev.msg = 1
  /\ (ev.err # 0) = (Len(ev.out) = 0)
  /\ \A i \in 1..Len(ev.out) : WF(ev.out[i])
  /\ IF p.ok = 2 THEN ev.err \in 0..12
     ELSE IF p.ok = 0 THEN ev.err \in p.codes
     ELSE ev.err = 0 /\ (ev.ix = 2 \/ View(ev.out[1]) = p.cv)

Step(ev) ==
  CASE ev.op = "reset"  -> crv' = [r \in Regs |-> NoCurve] /\ ex' = [r \in Regs |-> TRUE]
    [] ev.op = "new"    -> Is(ev.ix = 0) /\ Becomes(ev, FromArgs(ev.a))
    [] ev.op = "fixed"  -> Exactly(ev, Constrain(crv[ev.r], ev.c, ev.v, 1, 1, <<<<ev.a[1], ev.a[2], ev.a[3]>>, Zero>>))
    [] ev.op = "line"   -> Exactly(ev, Constrain(crv[ev.r], ev.c, ev.v, ev.n, 2, X2(ev.a)))
    [] ev.op = "plane"  -> Exactly(ev, Constrain(crv[ev.r], ev.c, ev.v, ev.n, 3, <<<<ev.a[1], ev.a[2], ev.a[3]>>, <<ev.a[4], 0, 0>>>>))
    [] ev.op = "uncst"  -> Exactly(ev, Unconstrain(crv[ev.r], ev.c, ev.v, ev.n))
    [] ev.op = "rmcst"  -> Is(ev.ret = Cardinality(Matching(crv[ev.r], ev.k, X2(ev.a)))) /\ Exactly(ev, Removed(crv[ev.r], ev.k, X2(ev.a)))
    [] ev.op = "rmall"  -> Exactly(ev, [crv[ev.r] EXCEPT !.cst = {}])
    [] ev.op = "iscst"  -> Query(ev, ev.neg = 0 /\ \A i \in 1..Len(ev.q) : AskedOK(crv[ev.r], ev.q[i]))
    [] ev.op = "fixcst" -> Observed(ev, ev.e = 0 /\ FixedUp(crv[ev.r], View(ev.out)))
    [] ev.op = "chkcst" -> Query(ev, Near(ev.e2, MaxOf({0} \cup {Scaled2(Dist2(q, crv[ev.r].cp[q.c+1].vt[q.v+1])) : q \in crv[ev.r].cst}), 1))
    [] ev.op = "wrap"   -> Exactly(ev, crv[ev.r])
    [] ev.op = "copy"   -> Is(ev.kept = 1 /\ ev.al = 0 /\ (ex[ev.s] => ev.ix = 0)) /\ Becomes(ev, crv[ev.s])
    [] ev.op = "setvt"  -> Exactly(ev, [crv[ev.r] EXCEPT !.cp[ev.c+1].vt[ev.v+1] = ev.a])
    [] ev.op = "addcp"  -> Exactly(ev, AddComponent(crv[ev.r], ev.at, MkStrand(ev.open, Take(ev.a, 1, ev.nv, 3), Take(ev.a, 1 + 3*ev.nv, ev.cc, 4))))
    [] ev.op = "dropcp" -> Exactly(ev, DropComponent(crv[ev.r], ev.c))
    [] ev.op = "resize" -> Exactly(ev, [crv[ev.r] EXCEPT !.cp[ev.c+1].clr = Resized(@, ev.cc)])
    [] ev.op = "setclr" -> Exactly(ev, [crv[ev.r] EXCEPT !.cp = [i \in DOMAIN @ |-> [@[i] EXCEPT !.clr = [j \in DOMAIN @ |-> ev.a]]]])
    [] ev.op = "delarc" -> Is(ev.kept = 1 /\ (ex[ev.s] => ev.ix = 0)) /\ Becomes(ev, DeleteArc(crv[ev.s], ev.c, ev.v1, ev.v2))
    [] ev.op = "double" -> Is(ev.kept = 1) /\ Observed(ev, LET L == crv[ev.s] IN
                             Len(ev.out.cp) = Len(L.cp) /\ \A i \in 1..Len(L.cp) : DoubledStrand(L.cp[i], Strand(ev.out.cp[i])))
    [] ev.op = "free"   -> Is(ev.same = 1) /\ crv' = [crv EXCEPT ![ev.r] = NoCurve] /\ ex' = [ex EXCEPT ![ev.r] = TRUE]
    [] ev.op = "scale"  -> Is(ScaleExact(crv[ev.r], ev.i[2])) /\ Exactly(ev, Scaled(crv[ev.r], ev.i[1], ev.i[2]))
    [] ev.op = "trans"  -> Exactly(ev, Translated(crv[ev.r], ev.a))
    [] ev.op = "whitten"-> Becomes(ev, Whitten(crv[ev.r], ev.m, ev.eps, ev.perm))
    [] ev.op = "rot"    -> Observed(ev, Rotated(crv[ev.r], View(ev.out), <<ev.i[1], ev.i[2], ev.i[3]>>, ev.i[4], ev.i[5], ev.i[6], ev.i[7]))
    [] ev.op = "proj"   -> Observed(ev, SameFrame(crv[ev.r], View(ev.out)) /\ \A p \in AllVerts(crv[ev.r]) : ProjNear(<<ev.i[1], ev.i[2], ev.i[3]>>, V(crv[ev.r], p), V(View(ev.out), p), 2))
    [] ev.op = "rrot"   -> Observed(ev, TurnedUp(crv[ev.r], View(ev.out), <<ev.i[1], ev.i[2], ev.i[3]>>, ev.i[4]))
    [] ev.op = "pfm"    -> Observed(ev, Folded(crv[ev.r], View(ev.out), ev.i[1], ev.i[2], ev.i[3], ev.i[4], ev.i[5], ev.i[6]))
    [] ev.op = "perturb"-> Observed(ev, Perturbed(crv[ev.r], View(ev.out), ev.a[1]))
    [] ev.op = "noise"  -> Observed(ev, Len(ev.out.cp) = Len(crv[ev.r].cp))
    [] ev.op = "nums"   -> Query(ev, NumsOK(crv[ev.r], ev))
    [] ev.op = "meas"   -> Is(ev.same = 1) /\ Is(MeasOK(crv[ev.r], ev)) /\ UNCHANGED <<crv, ex>>
    [] ev.op = "angles" -> Query(ev, AnglesOK(crv[ev.r], ev))
    [] ev.op = "wr"     -> /\ Is(ev.kept = 1 /\ ev.err = 0 /\ Len(ev.out) = 1 /\ ev.p = ev.q)
                           /\ Is(ReadOK(ev) /\ HeaderOK(ev.items, crv[ev.s]))
                           /\ Is(ev.ix = 2 \/ View(ev.out[1]) = crv[ev.s])
                           /\ crv' = [crv EXCEPT ![ev.r] = View(ev.out[1])] /\ ex' = [ex EXCEPT ![ev.r] = (ev.ix = 0)]
    [] ev.op = "rd"     -> Is(ReadOK(ev)) /\ crv' = [crv EXCEPT ![ev.r] = IF Len(ev.out) = 1 THEN View(ev.out[1]) ELSE NoCurve] /\ ex' = [ex EXCEPT ![ev.r] = (ev.ix = 0)]
    [] OTHER            -> FALSE

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_tvars
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
