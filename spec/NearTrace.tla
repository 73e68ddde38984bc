------------------------------ MODULE NearTrace ------------------------------
(* Nearest-neighbour queries: the answer is a nearest point, with or without data kept from earlier
   queries; data kept for another buffer or curve is noticed and rebuilt.                        *)
EXTENDS PLCurve, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES B, C, H, K, l      \* buffers, curves (lists of buffers), what each handle was made for (-1: nothing)
Is(p) == IF p THEN TRUE ELSE FALSE
Nearest(P, x, k) == LET d == Sq(Sub(P[k], x)) IN \A i \in 1..Len(P) : d <= Sq(Sub(P[i], x))
NnOK(ev) ==
  /\ ev.k \in 0..(Len(B[ev.b]) - 1) /\ Nearest(B[ev.b], ev.x, ev.k + 1)
  /\ ev.stale = (IF ev.h >= 0 /\ H[ev.h] # -1 /\ H[ev.h] # ev.b THEN 1 ELSE 0)
NvOK(ev) ==
  LET bs == C[ev.c] IN
  /\ ev.cp \in 0..(Len(bs) - 1) /\ ev.vt \in 0..(Len(B[bs[ev.cp + 1]]) - 1) /\ ev.y = B[bs[ev.cp + 1]][ev.vt + 1]
  /\ LET d == Sq(Sub(ev.y, ev.x)) IN \A j \in 1..Len(bs) : LET P == B[bs[j]] IN \A i \in 1..Len(P) : d <= Sq(Sub(P[i], ev.x))
  /\ ev.stale = (IF ev.h >= 0 /\ K[ev.h] # -1 /\ K[ev.h] # ev.c THEN 1 ELSE 0)
Step(ev) ==
  \/ ev.op = "reset" /\ B' = [i \in 0..7 |-> <<>>] /\ C' = [i \in 0..7 |-> <<>>] /\ H' = [i \in 0..3 |-> -1] /\ K' = [i \in 0..3 |-> -1]
  \/ ev.op = "buf" /\ B' = [B EXCEPT ![ev.b] = ev.p] /\ UNCHANGED <<C, H, K>>
  \/ ev.op = "nn" /\ Is(NnOK(ev)) /\ H' = (IF ev.h >= 0 THEN [H EXCEPT ![ev.h] = ev.b] ELSE H) /\ UNCHANGED <<B, C, K>>
  \/ ev.op = "nnfree" /\ ev.null = 1 /\ H' = [H EXCEPT ![ev.h] = -1] /\ UNCHANGED <<B, C, K>>
  \/ ev.op = "crv" /\ C' = [C EXCEPT ![ev.c] = ev.bs] /\ UNCHANGED <<B, H, K>>
  \/ ev.op = "nv" /\ Is(NvOK(ev)) /\ K' = (IF ev.h >= 0 THEN [K EXCEPT ![ev.h] = ev.c] ELSE K) /\ UNCHANGED <<B, C, H>>
  \/ ev.op = "nvfree" /\ ev.null = 1 /\ K' = [K EXCEPT ![ev.h] = -1] /\ UNCHANGED <<B, C, H>>
Init == B = [i \in 0..7 |-> <<>>] /\ C = [i \in 0..7 |-> <<>>] /\ H = [i \in 0..3 |-> -1] /\ K = [i \in 0..3 |-> -1] /\ l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<B, C, H, K, l>>
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
