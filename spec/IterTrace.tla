----------------------------- MODULE IterTrace ------------------------------
EXTENDS Iter, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == obj = <<>> /\ l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<obj, l>>
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
