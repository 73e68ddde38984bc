---------------------------- MODULE SplineTrace ----------------------------
EXTENDS Spline, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sp
vars == <<l, sp>>
Is(p) == IF p THEN TRUE ELSE FALSE
Resample(ev) ==
  /\ ev.nc = Len(sp)
  /\ \A j \in 1..ev.nc : LET c == ev.cp[j]  o == sp[j]  n == Len(o.v)  total == Upto(o.pc, Len(o.pc))  steps == IF o.open = 1 THEN c.nv - 1 ELSE c.nv IN
       /\ c.open = o.open /\ c.nv = c.want /\ Len(c.v) = c.nv /\ c.wrap = 1
       /\ \A k \in 1..c.nv, i \in 1..3 : Size(c.v[k][i] - c.s[k][i]) <= 1
       /\ c.cc = (IF o.cc <= 1 THEN o.cc ELSE c.nv)
       /\ (c.cc = 1 => c.c = c.c0)
       /\ (c.cc > 1 => \A k \in 1..c.nv, i \in 1..4 : Size(c.c[k][i] - ColourAt(o.pc, n, c.c0, total * (k - 1), steps)[i]) <= 2)
Step(ev) ==
  \/ ev.op = "reset" /\ sp' = <<>>
  \/ ev.op = "spline" /\ Is(ev.ok = 1 /\ ev.kept = 1 /\ ev.nc = Len(ev.cp) /\ \A i \in 1..ev.nc : Strand(ev.cp[i])) /\ sp' = ev.cp
  \/ ev.op = "resample" /\ Is(Resample(ev)) /\ UNCHANGED sp
  \/ ev.op = "unspline" /\ sp' = <<>>
Init == l = 1 /\ sp = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
