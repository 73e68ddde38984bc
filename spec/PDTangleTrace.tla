--------------------------- MODULE PDTangleTrace ---------------------------
(* Recorded tangle calls against PDTangle. *)
EXTENDS PDTangle, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == regs = NoRegs /\ l = 1
SetOf(s) == {s[i] : i \in 1..Len(s)}
TStep(ev) ==
  CASE ev.op = "reset"    -> regs' = NoRegs
    [] ev.op = "build"    -> Build(ev.r, ev.in, ev.out[1])
    [] ev.op = "fam"      -> Load(ev.r, ev.out[1])
    [] ev.op = "load"     -> Load(ev.r, ev.out[1])
    [] ev.op = "reorient" -> Reorient(ev.r, ev.a[1], ev.a[2], ev.out[1])
    [] ev.op = "renumber" -> Renumber(ev.r, ev.a[1], ev.a[2], ev.out[1])
    [] ev.op = "tangle"   -> /\ regs' = regs /\ ev.same = 1
                             /\ IF IsTangle(A(ev.s[1]), SetOf(ev.m)) /\ TangleData(regs[ev.s[1]], SetOf(ev.m), ev) THEN TRUE ELSE FALSE
    [] ev.op = "slide"    -> /\ regs' = regs
                             /\ IF Slide(regs[ev.s[1]], SetOf(ev.m), ev) THEN TRUE ELSE FALSE
    [] OTHER              -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ TStep(Trace[l])
TSpec == TInit /\ [][TNext]_<<regs, l>>
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
