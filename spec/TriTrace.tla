------------------------------ MODULE TriTrace ------------------------------
EXTENDS Tri, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Is(p) == IF p THEN TRUE ELSE FALSE
TextOK(ev) == ev.print = ev.T.d /\ ev.math = ev.T.d
FindOK(ev) == \A i \in 1..Len(ev.find) : LET q == ev.find[i] IN      \* <<a, b, index>>
  IF q[3] = -1 THEN \A k \in 1..Len(ev.T.d) : Un(ev.T.d[k]) # {q[1], q[2]} ELSE q[3] \in 0..(Len(ev.T.d) - 1) /\ Un(ev.T.d[q[3] + 1]) = {q[1], q[2]}
Step(ev) ==
  \/ ev.op = "reset"
  \/ ev.op = "csok" /\ Is((ev.ok = 1) = SystemOK(ev.s))
  \/ ev.op = "tri" /\ Is(/\ ev.ok = 1 /\ TextOK(ev) /\ FindOK(ev)
                         /\ (IF ev.kind = "given" THEN Triangulates(ev.T, ev.n, ev.s)
                             ELSE IF ev.kind = "random" THEN /\ Len(ev.T.d) = ev.n - 3 /\ \A i \in 1..(ev.n - 3) : IsDiagonal(ev.n, ev.T.d[i])
                                                             /\ SystemOK(ev.T.d) /\ Triangulates(ev.T, ev.n, ev.T.d)
                             ELSE RangeOf([i \in 1..Len(ev.T.d) |-> Un(ev.T.d[i])]) = Family(ev.kind, ev.n) /\ Triangulates(ev.T, ev.n, ev.T.d))
                         /\ PolytopeOK(ev.poly, ev.T, ev.len) /\ PolytopeOK(ev.polyf, ev.T, ev.len))
  \* a damaged triangulation is reported as such
  \/ ev.op = "bad" /\ Is(ev.ok = 0)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
