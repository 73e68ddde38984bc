----------------------------- MODULE PolyTrace -----------------------------
EXTENDS Poly, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Is(p) == IF p THEN TRUE ELSE FALSE
RECURSIVE AddUp(_, _)
AddUp(s, k) == IF k = 0 THEN 0 ELSE s[k] + AddUp(s, k - 1)

Polygon(ev) ==
  LET n == ev.n  shut == Closed(ev.k) IN
  /\ ev.nc = 1 /\ ev.open = (IF shut THEN 0 ELSE 1) /\ ev.nv = (IF shut THEN n ELSE n + 1) /\ ev.cc = 0 /\ ev.cst = 0 /\ ev.wrap = 1
  /\ Len(ev.el) = n /\ \A i \in 1..n : ev.el[i] >= 0
  /\ (UnitEdges(ev.k) => \A i \in 1..n : Mag(ev.el[i] - 1000000) <= 1)
  /\ (~UnitEdges(ev.k) => Mag(ev.len - 2000000) <= 1)
  /\ (ev.k = "eopen" => \A i \in 1..n : Mag(ev.el[i] - (2000000 \div n)) <= 1)
  /\ (Planar(ev.k) => ev.flat <= 1)
  /\ (~Planar(ev.k) /\ n > 4 => ev.flat > 1)
  /\ (ev.k = "sap" => ev.near >= 999999 /\ ev.sap = 1)
Again(ev) == ev.same = 1 /\ ev.diff = 1

Moments(ev) ==
  LET n == ev.n
      of(k) == IF ev.k = "sap" THEN ev.ref[k][1] ELSE Parts(ChordMean(ev.k, n, k))
      err(k) == IF ev.k = "sap" THEN 8 * ev.ref[k][2] ELSE 0
  IN /\ \A i \in 1..n : \A k \in 1..Len(ev.c[i]) :
            /\ Agrees(ev.c[i][k], of(k), 2 + err(k))
            /\ 8 * ev.c[i][k][2] <= of(k) + 200                           \* enough samples
     /\ Len(ev.c[1]) = (IF Closed(ev.k) THEN n - 1 ELSE n)
     /\ Agrees(ev.vol[1], 0, 5)                                           \* no handedness
     /\ (ev.k \in {"closed", "open", "eopen"} =>                          \* no preferred direction
            LET s == Parts(SquaredEdge(ev.k, n)) IN
            /\ \A j \in 1..3 : Agrees(ev.dir[j], 0, 2) /\ Agrees(ev.dir[3 + j], s \div 3, 2) /\ Agrees(ev.dir[6 + j], 0, 2))
     /\ (Planar(ev.k) =>                                                  \* none in the plane, a coordinate plane
            LET s == Parts(SquaredEdge(ev.k, n)) IN
            \E z \in 1..3 : \A j \in 1..3 : /\ Agrees(ev.dir[j], 0, 2) /\ Agrees(ev.dir[6 + j], 0, 2)
                                             /\ Agrees(ev.dir[3 + j], IF j = z THEN 0 ELSE s \div 2, 2))
Sphere(ev) ==
  /\ ev.worst <= 10
  /\ \A j \in 1..3 : Agrees(ev.dir[j], 0, 2) /\ Agrees(ev.dir[3 + j], 33333, 2) /\ Agrees(ev.dir[6 + j], 0, 2)
  /\ \A j \in 1..6 : Agrees(ev.cap[j], 2000, 2)                            \* a cap of height 0.04 has a fiftieth of the area
Ball(ev) ==
  /\ ev.worst <= ev.R
  /\ \A j \in 1..3 : Agrees(ev.dir[j], 0, 2) /\ Agrees(ev.dir[3 + j], 20000, 2) /\ Agrees(ev.dir[6 + j], 0, 2)
Xoshiro(ev) ==
  /\ ev.same = 1 /\ ev.out = 0 /\ ev.other <= 1
  /\ Agrees(ev.m[1], 50000, 2) /\ Agrees(ev.m[2], 0, 2) /\ \A k \in 3..12 : Agrees(ev.m[k], 50000, 2)
\* points in tenths: spheres of radius one half do not overlap
IsSap(ev) == (ev.r = 1) = (\A i, j \in 1..Len(ev.p) : i < j => LET a == ev.p[i]  b == ev.p[j] IN
   ((a[1] - b[1]) * (a[1] - b[1])) + ((a[2] - b[2]) * (a[2] - b[2])) + ((a[3] - b[3]) * (a[3] - b[3])) >= 100)

Close(ev) ==
  LET m == ev.ne - (ev.nv - 1)  spare == 2000000 - ev.len - ev.gap                \* of the closing arc
      may == ev.open = 1 /\ m >= 1 /\ (IF m = 1 THEN spare = 0 ELSE spare >= 0)
      must == ev.open = 1 /\ m >= 2 /\ spare > 2 /\ ev.ne >= 3
      not == ev.open = 0 \/ m < 1 \/ spare < -2 \/ (m = 1 /\ spare > 2)
  IN /\ ev.kept = 1
     /\ (must => ev.made = 1) /\ (not => ev.made = 0)
     /\ (ev.made = 1 /\ ev.ne >= 3 =>
           /\ ev.others = 1 /\ ev.wrap = 1 /\ ev.clr = 1 /\ ev.copen = 0 /\ ev.cnv = ev.ne
           /\ ev.ccc = (IF ev.icc <= 1 THEN ev.icc ELSE ev.ne)
           /\ Mag(ev.len2 - 2000000) <= 2
           /\ \A i \in 1..ev.nv : ev.v[i] = ev.v0[i]
           \* on average the closing arc runs straight back, every edge alike
           /\ (ev.reps > 1 => \A j \in 1..(Len(ev.mean) \div 3), k \in 1..3 :
                  Agrees(ev.mean[(3 * (j - 1)) + k], ((ev.v0[1][k] - ev.v0[ev.nv][k]) \div (10 * m)), 3)))

Init == l = 1
Step(ev) == CASE ev.op = "polygon" -> Polygon(ev)
              [] ev.op = "again" -> Again(ev)
              [] ev.op = "moments" -> Moments(ev)
              [] ev.op = "sphere" -> Sphere(ev)
              [] ev.op = "ball" -> Ball(ev)
              [] ev.op = "xoshiro" -> Xoshiro(ev)
              [] ev.op = "issap" -> IsSap(ev)
              [] ev.op = "close" -> Close(ev)
              [] ev.op = "reset" -> TRUE
Next == l <= Len(Trace) /\ Is(Step(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
