----------------------------- MODULE GeyerTrace -----------------------------
EXTENDS Geyer, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, d, b                    \* samples so far, buffer size
vars == <<l, d, b>>
Is(p) == IF p THEN TRUE ELSE FALSE
Abs(x) == IF x < 0 THEN -x ELSE x
Close(x, y) == Abs(x - y) <= 1 + (Abs(y) \div 1000000)
MeanOK(ev) == Abs(ev.mean * Len(d) - Total(d) * 10000) <= Len(d)       \* mean times 10^4
Value(ev) ==
  IF Len(d) = 0 THEN ev.mean = 0 /\ ev.ok \in {0, 1}
  ELSE /\ MeanOK(ev) /\ ev.ok \in {0, 1}
       /\ (ev.want = 0 => ev.ok = 1)
       /\ (ev.want = 1 => IF ev.ok = 1 THEN ev.fin = 1 /\ \E x \in Estimates(d) : Close(ev.est, x)
                          ELSE Len(d) > b /\ OutOfLags(d, IF b < 50 THEN b ELSE 50))
\* the list of Gammas before the first that is not positive (one that is exactly zero may be taken for positive), and the sums
ListOK(ev) == LET c == Covs(d)  n == Len(ev.G)  top == (Len(d) \div 2) - 1 IN
  /\ ev.N = n /\ Close(ev.g[1], c[1]) /\ Close(ev.g[2], c[2]) /\ ev.s[1] = ev.s[2]
  /\ n <= (IF top > 0 THEN top ELSE 0)
  /\ \A k \in 1..n : Gam(c, k) >= 0 /\ Close(ev.G[k], Gam(c, k))
  /\ (n < top => Gam(c, n + 1) <= 0)
  /\ \E x \in Estimates(d) : Close(ev.s[1], x)
(* long lists of samples with sum zero, as runs: m times the lagged products *)
RECURSIVE SumBetween(_, _, _)
SumBetween(f, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN f[lo] ELSE LET h == (lo + hi) \div 2 IN SumBetween(f, lo, h) + SumBetween(f, h + 1, hi)
Flat(v) == LET end == [i \in 0..Len(v) |-> SumTo([j \in 1..Len(v) |-> v[j][2]], i)] IN
  TLCEval([t \in 1..end[Len(v)] |-> v[CHOOSE i \in 1..Len(v) : end[i - 1] < t /\ t <= end[i]][1]])
RLag(z, k) == IF k >= Len(z) THEN 0 ELSE LET f == TLCEval([i \in 1..(Len(z) - k) |-> z[i] * z[i + k]]) IN SumBetween(f, 1, Len(f))
RunsOK(ev) == LET z == Flat(ev.v)  n == Len(ev.G)  top == (Len(z) \div 2) - 1
                  G == TLCEval([k \in 1..n |-> RLag(z, 2 * k) + RLag(z, 2 * k + 1)])  x == ev.g[1] + 2 * ev.g[2] + 2 * SumBetween(G, 1, n) IN
  /\ Len(z) = ev.m /\ SumBetween(z, 1, ev.m) = 0
  /\ ev.g = <<RLag(z, 0), RLag(z, 1)>> /\ ev.G = G
  /\ n <= top /\ (\A k \in 1..n : G[k] >= 0) /\ (n < top => RLag(z, 2 * n + 2) + RLag(z, 2 * n + 3) <= 0)
  /\ (IF x > 0 THEN Close(ev.s, x) ELSE IF x = 0 THEN ev.s \in {0, ev.g[1]} ELSE Close(ev.s, ev.g[1]))
Step(ev) ==
  \/ ev.op = "reset" /\ d' = <<>> /\ b' = 0
  \/ ev.op = "new" /\ d' = <<>> /\ b' = ev.b
  \/ ev.op = "add" /\ d' = d \o ev.v /\ UNCHANGED b
  \/ ev.op = "value" /\ Is(Value(ev)) /\ UNCHANGED <<d, b>>
  \* all samples at once
  \/ ev.op = "batch" /\ Is(Len(d) > 0 => MeanOK(ev) /\ ev.fin = 1 /\ \E x \in Estimates(d) : Close(ev.est, x)) /\ Is(Len(d) > 1 => ListOK(ev)) /\ UNCHANGED <<d, b>>
  \/ ev.op = "runs" /\ Is(RunsOK(ev)) /\ UNCHANGED <<d, b>>
  \/ ev.op = "free" /\ ev.null = 1 /\ d' = <<>> /\ b' = 0
Init == l = 1 /\ d = <<>> /\ b = 0
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
