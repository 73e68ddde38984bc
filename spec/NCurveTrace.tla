---------------------------- MODULE NCurveTrace ----------------------------
EXTENDS NCurve, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES R, l
vars == <<R, l>>
Is(p) == IF p THEN TRUE ELSE FALSE
u == 10000
NoneN == [dim |-> 0, cp |-> <<>>]
\* what the driver recorded of a curve
Seen(o) == [dim |-> o.dim, cp |-> [i \in 1..Len(o.cp) |-> [open |-> o.cp[i].open, vt |-> o.cp[i].vt, clr |-> o.cp[i].clr]]]
Wrapped(o) == \A i \in 1..Len(o.cp) : Len(o.cp[i].vt) >= 2 => o.cp[i].hid = HiddenOf(o.cp[i])
Becomes(ev, M) == Seen(ev.out) = M /\ Wrapped(ev.out)
Near2(x, y, tol) == Mag(x - y) <= tol
Measure(ev, L) ==
  /\ ev.dim = L.dim /\ ev.edges = Total([i \in 1..Len(L.cp) |-> EdgesOf(L.cp[i])]) /\ ev.edges2 = ev.edges /\ ev.edges3 = ev.edges
  /\ ev.ce = [i \in 1..Len(L.cp) |-> EdgesOf(L.cp[i])]
  /\ ev.verts = Total([i \in 1..Len(L.cp) |-> Size1(L.cp[i])])
  /\ Len(ev.len) = Len(L.cp)
  /\ \A i \in 1..Len(L.cp) : Near2(ev.len[i], LenFrom(L.cp[i], 1, EdgesOf(L.cp[i]) + 1), EdgesOf(L.cp[i]) + 1)
  /\ Near2(ev.tot, Total(ev.len), Len(L.cp) + 1) /\ ev.tot2 = ev.tot
  /\ \A k \in 1..Len(ev.sub) : LET q == ev.sub[k] IN Near2(q[4], SubLen(L.cp[q[1] + 1], q[2] + 1, q[3] + 1), Size1(L.cp[q[1] + 1]) + 1)
Got(ev, P) ==
  /\ ev.msg = 1
  /\ P.ok = 1 => ev.err = 0 /\ ev.has = 1 /\ Becomes(ev, P.cv)
  /\ P.ok = 0 => ev.err \in P.codes /\ ev.has = 0
  /\ P.ok = 2 => (ev.err = 0) = (ev.has = 1)
Unit1(x, d) == /\ \A i, j \in 1..Len(d) : Mag((x[i] * d[j]) - (x[j] * d[i])) <= Mag(d[i]) + Mag(d[j]) + 1
               /\ VDot(x, d) > 0
               /\ Mag(Total([i \in 1..Len(d) |-> (x[i] * x[i]) \div 4]) - ((u * u) \div 4)) <= (u * (1 + (Len(d) \div 20))) + Len(d)
Vectors(ev) ==
  LET A == ev.A  B == ev.B  s == ev.s  t == ev.t  n == Len(A) IN
  /\ ev.kept = 1 /\ Len(B) = n
  /\ ev.zero = VZero(n) /\ ev.copy = A /\ ev.buf = [i \in 1..3 |-> VZero(n)] /\ ev.gone = 1
  /\ ev.sum = VAdd(A, B) /\ ev.diff = VSub(A, B) /\ ev.scale = VTimes(s, A) /\ ev.mul = VMul(A, B)
  /\ ev.lin = VAdd(VTimes(s, A), VTimes(t, B)) /\ ev.madd = VAdd(A, VTimes(s, B)) /\ ev.wei = VAdd(VTimes(4 - s, A), VTimes(s, B))
  /\ (ev.divok = 1) = (\A i \in 1..n : B[i] # 0)
  /\ (ev.divok = 1 => \A i \in 1..n : Mag((ev.div[i] * B[i]) - (u * A[i])) <= Mag(B[i]))
  /\ ev.dot = VDot(A, B) /\ ev.sq = VSq(VSub(A, B))
  /\ Mag((ev.norm * ev.norm) - (10000 * VSq(A))) <= (2 * ev.norm) + 1
  /\ Mag((ev.dist * ev.dist) - (10000 * VSq(VSub(A, B)))) <= (2 * ev.dist) + 1
  /\ ev.eq = <<IF A = B THEN 1 ELSE 0, 1, 0, 0>>
  /\ (ev.nok = 1) = (A # VZero(n)) /\ (ev.nok = 1 => Unit1(ev.unit, A))
  /\ (ev.aok = 1) = (A # VZero(n) /\ B # VZero(n))
  /\ (ev.aok = 1 => ev.arange = 1 /\ LET r == Cent(VSq(A) * VSq(B)) IN Mag((ev.cos * (r \div 10)) - (100000 * VDot(A, B))) <= (r \div 10) + (2 * u))
  /\ ev.build = [i \in 1..Len(ev.build) |-> (s + (i * t))] /\ Len(ev.build) = 5
  /\ ev.print = 1 /\ ev.clist = 1
\* N unit vectors: mean and second moments, in units of 1 / 10000
Random(ev) ==
  /\ ev.unit = 1 /\ ev.dim = 1
  /\ \A i \in 1..ev.n : Mag(ev.mean[i]) <= ev.tol /\ Mag(ev.m2[i] - (u \div ev.n)) <= ev.tol
  /\ \A k \in 1..Len(ev.cross) : Mag(ev.cross[k]) <= ev.tol
Right(ev) ==
  CASE ev.op = "reset" -> TRUE
    [] ev.op = "new"  -> ev.blank = 1 /\ Becomes(ev, [dim |-> ev.dim, cp |-> [i \in 1..Len(ev.cp) |-> Strand(ev.cp[i].open, ev.cp[i].vt, ev.cp[i].clr)]])
    [] ev.op = "copy" -> ev.kept = 1 /\ Becomes(ev, R[ev.s])
    [] ev.op = "comp" -> ev.kept = 1 /\ Becomes(ev, ComponentC(R[ev.s], ev.c + 1))
    [] ev.op = "rev"  -> ev.kept = 1 /\ Becomes(ev, ReverseC(R[ev.r]))
    [] ev.op = "set"  -> ev.kept = 1 /\ Becomes(ev, PutVertex(R[ev.r], ev.c + 1, ev.j + 1, ev.v))
    [] ev.op = "wr"   -> ev.kept = 1 /\ Content(ev.items) = TextOf(R[ev.s]) /\ Got(ev, ParseN(ev.items))
    [] ev.op = "rd"   -> ev.kept = 1 /\ Got(ev, ParseN(ev.items))
    [] ev.op = "meas" -> ev.kept = 1 /\ Measure(ev, R[ev.r])
    [] ev.op = "free" -> ev.kept = 1
    [] ev.op = "vec"  -> Vectors(ev)
    [] ev.op = "rnd"  -> Random(ev)
After(ev) ==
  CASE ev.op = "reset" -> [i \in 0..3 |-> NoneN]
    [] ev.op \in {"new", "copy", "comp", "rev", "set"} -> [R EXCEPT ![ev.r] = Seen(ev.out)]
    [] ev.op \in {"wr", "rd"} -> [R EXCEPT ![ev.r] = IF ev.has = 1 THEN Seen(ev.out) ELSE NoneN]
    [] ev.op = "free" -> [R EXCEPT ![ev.r] = NoneN]
    [] OTHER -> R
Init == l = 1 /\ R = [i \in 0..3 |-> NoneN]
Next == l <= Len(Trace) /\ Is(Right(Trace[l])) /\ R' = After(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
