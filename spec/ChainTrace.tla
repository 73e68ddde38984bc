----------------------------- MODULE ChainTrace -----------------------------
EXTENDS Chain, Json, IOUtils, FiniteSetsExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st                      \* [T, el, dl, da, r]: the state of the chain; r = 0 if not confined
vars == <<l, st>>
Is(p) == IF p THEN TRUE ELSE FALSE
None == [T |-> 0, el |-> <<>>, dl |-> <<>>, da |-> <<>>, r |-> 0]
State(ev, T, r) == [T |-> T, el |-> ev.el, dl |-> ev.dl, da |-> ev.da, r |-> r]
AllNear(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Abs(x[i] - y[i]) <= tol

Start(ev) ==
  /\ Triangulates(ev.T, ev.n, ev.T.d) /\ Admissible(ev.T, ev.el, ev.dl, 4) /\ AnglesOK(ev.T, ev.da)
  /\ \A i \in 1..ev.n : Abs(ev.el[i] - (IF i = 1 /\ ev.what \in {"ftc", "regftc"} THEN ev.x ELSE One)) <= 1
  /\ (ev.what = "confined" => Confined(ev.dl, ev.x, 1))
  /\ (ev.what = "regular" => /\ \A i \in 1..Len(ev.da) : Abs(ev.da[i] - (TwoPi \div 2)) <= 50          \* flat and not folded
                             /\ \A i, j \in 1..Len(ev.dl) : LET k(c) == (ev.T.d[c][1] - ev.T.d[c][2]) % ev.n  s(c) == IF k(c) <= ev.n - k(c) THEN k(c) ELSE ev.n - k(c) IN
                                  /\ (s(i) = s(j) => Abs(ev.dl[i] - ev.dl[j]) <= 1)
                                  /\ (s(i) < s(j) => ev.dl[i] < ev.dl[j]))
MpStep(ev) == ev.ret = "mp" /\ ev.ee = 1 /\ ev.ae = 1 /\ Admissible(st.T, ev.el, ev.dl, 4)
DihStep(ev) == ev.ret = "dih" /\ ev.ee = 1 /\ ev.de = 1 /\ AnglesOK(st.T, ev.da)
PermStep(ev) == /\ ev.ret = "perm" /\ AllNear(ev.el, st.el, 1) /\ Admissible(st.T, ev.el, ev.dl, 4) /\ AnglesOK(st.T, ev.da)
                /\ (st.T.n <= 9 => ev.made = 1 /\ Permuted(ev.g0, ev.g1, ev.t0, ev.t1, st.T.n, Abs(st.el[1] - One) > 1, 30))
Move(ev) ==
  CASE ev.w = "mp" -> MpStep(ev)
    [] ev.w = "cmp" -> MpStep(ev) /\ Confined(ev.dl, st.r, 1)
    [] ev.w = "dih" -> DihStep(ev)
    [] ev.w = "perm" -> PermStep(ev)
    [] ev.w = "dd" -> (MpStep(ev) /\ ev.b > 0) \/ (DihStep(ev) /\ ev.b < 100)
    [] ev.w = "ddp" -> (PermStep(ev) /\ ev.dl_ > 0) \/ (MpStep(ev) /\ ev.dl_ < 100 /\ ev.b > 0) \/ (DihStep(ev) /\ ev.dl_ < 100 /\ ev.b < 100)
    [] OTHER -> /\ (st.r > 0 => Confined(ev.dl, st.r, 1))
                /\ (MpStep(ev) /\ ev.b > 0) \/ (DihStep(ev) /\ ev.b < 100)

\* the placed polygon has the lengths and angles of the state, however it is measured
Placed(ev, s, tol) ==
  /\ ev.nc = 1 /\ ev.open = 0 /\ ev.nv = s.T.n
  /\ AllNear(ev.me, s.el, tol) /\ AllNear(ev.md, s.dl, tol) /\ AllNear(ev.le, s.el, tol) /\ AllNear(ev.ld, s.dl, tol)
  /\ \A i \in 1..Len(s.da) : ev.mf[i] > 200 =>                 \* neither triangle is nearly flat
       /\ Round(ev.ma[i], s.da[i] \div 100, 62832) <= 20 /\ ev.def[i] = 1 /\ Round(ev.la[i], s.da[i] \div 100, 62832) <= 20
  /\ \A k \in 1..3 : ev.v[1][k] = ev.v[s.T.n + 1][k] /\ ev.v[s.T.n + 2][k] = ev.v[2][k]        \* the copies at the ends
Root0(ev, s) ==       \* the first triangle: vertex 0 at the origin, vertex 1 on the x axis, the third above it
  LET w == ev.v[(CHOOSE x \in Verts(s.T, 0) : x \notin {0, 1}) + 2] IN
  ev.v[2] = <<0, 0, 0>> /\ ev.v[3][2] = 0 /\ ev.v[3][3] = 0 /\ ev.v[3][1] >= 0 /\ w[2] >= 0 /\ w[3] = 0
Lens(ev) ==
  LET good == Admissible(ev.T, ev.ie, ev.id, 0)
      flat == \E i \in 0..(Len(ev.T.t) - 1) : LET s == SidesOf(ev.T, i)  a == Size(ev.ie, ev.id, s[1])  b == Size(ev.ie, ev.id, s[2])  c == Size(ev.ie, ev.id, s[3]) IN
                 a + b = c \/ b + c = a \/ c + a = b
  IN /\ (good /\ (ev.unit = 1 \/ ~flat) => ev.ok = 1 /\ ev.made = 1 /\ ev.cok = (IF Confined(ev.id, ev.r, 0) \/ ev.unit = 0 THEN ev.cok ELSE 0))
     /\ (good /\ ev.unit = 1 => (ev.cok = 1) = Confined(ev.id, ev.r, 0))
     /\ (~good => ev.ok = 0 /\ ev.cok = 0 /\ ev.made = 0)
     /\ (ev.unit = 1 => (ev.eq = 1) = (\A i \in 1..Len(ev.ie) : ev.ie[i] = 1))
     /\ (ev.made = 1 => ev.ok = 1 /\ Placed(ev, State(ev, ev.T, 0), 3))
Poly(ev) ==
  LET n == Len(ev.v)  D == TLCEval(DistTable(ev.v))
      len2(x, k) == Abs((x * x) - (1000000 * k)) <= 2 * x + 4
      h == TLCEval([i \in 1..(n - 3) |-> Hinge(ev.T, ev.v, i - 1)])
      short == \E i \in 1..n, j \in 1..n : i < j /\ D[i][j] = 0
  IN /\ Triangulates(ev.T, n, ev.T.d)
     /\ \A i \in 1..n : len2(ev.el[i], D[i][(i % n) + 1])
     /\ \A i \in 1..(n - 3) : len2(ev.dl[i], D[ev.T.d[i][1] + 1][ev.T.d[i][2] + 1])
     /\ \A i \in 1..(n - 3) : /\ (ev.def[i] = 1) = ~h[i].flat
                              /\ (~h[i].flat => HingeOK(h[i], ev.cs[i]) /\ ev.da[i] \in 0..6284)
     /\ ((\A i \in 1..(n - 3) : ~h[i].flat) =>
            /\ ev.made = 1
            /\ \A i, j \in 1..n : Abs(ev.D[i][j] - 1000 * D[i][j]) <= 20
            /\ \A k \in 4..n : Abs(ev.vol[k - 3] - 1000 * Volume(ev.v, k)) <= 40)
\* the chain as a whole
RunOK(ev) ==
  /\ ev.badarg = 0 /\ ev.calls = ev.max - ev.burn - 1 /\ ev.dev <= 1
  /\ (ev.what = "confined" => ev.maxr <= ev.x + 1)
  /\ Abs(ev.diff) <= 10 /\ Abs(ev.errd) <= 100
  /\ (ev.stats = 1 => /\ ev.sd + ev.sm + ev.sp = ev.max /\ ev.sd >= 0 /\ ev.sm >= 0 /\ ev.sp >= 0
                      /\ ev.mst[1][3] = ev.sd /\ ev.mst[1][4] = ev.sm /\ ev.mst[1][5] = ev.sp
                      /\ (ev.dl_ = 0 \/ ev.what = "confined" => ev.sp = 0) /\ (ev.dl_ = 100 /\ ev.what # "confined" => ev.sp = ev.max)
                      /\ (ev.b = 0 => ev.sm = 0) /\ (ev.b = 100 => ev.sd = 0)
                      \* the asked-for fractions, within six deviations
                      /\ (ev.what # "confined" => 10000 * Abs(100 * ev.sp - ev.max * ev.dl_) <= 10000 * (300 * Root(ev.max) + 100)))
  /\ ev.mpl = 1 /\ ev.good = ev.lines
  \* squared chords of equilateral polygons; the error bar is 1.96 deviations
  /\ (ev.what = "equi" /\ ev.k > 0 /\ ev.max > 3000 =>
        LET want == Chord2(ev.n, ev.k) IN ev.err >= 0 /\ 6 * ev.err < want /\ Abs(ev.mean - want) <= 4 * ev.err + 20)
Mean(ev) ==
  /\ Admissible(st.T, ev.el, ev.dl, 4) /\ (st.r > 0 => Confined(ev.dl, st.r, 1))
  /\ Abs(ev.cs[1]) <= 4500 /\ Abs(ev.cs[2]) <= 4500
  /\ LET m == st.T.n - 3  reach == Max({st.el[i] : i \in 1..st.T.n}) * 2  top == IF m = 1 THEN 120 ELSE IF m = 2 THEN 40 ELSE 20
         hi == IF st.r > 0 /\ st.r < reach THEN st.r ELSE IF m = 3 /\ 3 * One > reach THEN 3 * One ELSE reach
         S == TLCEval(Cells(st.T, st.el, st.r, ((hi \div 1000) \div top) * 1000, top)) IN
     \A i \in 1..m : LET want == FoldSet(LAMBDA x, a : a + (x[i] \div 1000), 0, S) \div Cardinality(S) IN
       Abs(ev.avg[i] - want) <= 4 * ev.err[i] + (want \div 25) /\ 8 * ev.err[i] < want
Step(ev) ==
  \/ ev.op = "reset" /\ st' = None
  \/ ev.op = "start" /\ Is(Start(ev)) /\ st' = State(ev, ev.T, IF ev.what = "confined" THEN ev.x ELSE 0)
  \/ ev.op = "step" /\ Is(Move(ev)) /\ st' = State(ev, st.T, st.r)
  \/ ev.op = "embed" /\ Is(ev.made = 1 /\ Placed(ev, st, 3) /\ Root0(ev, st) /\ ev.eok = 1 /\ ev.bad = 0) /\ UNCHANGED st
  \/ ev.op = "lens" /\ Is(Lens(ev)) /\ st' = State(ev, ev.T, 0)
  \/ ev.op = "poly" /\ Is(Poly(ev)) /\ st' = None
  \/ ev.op = "run" /\ Is(RunOK(ev)) /\ UNCHANGED st
  \/ ev.op = "mean" /\ Is(Mean(ev)) /\ st' = State(ev, st.T, st.r)
Init == l = 1 /\ st = None
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
