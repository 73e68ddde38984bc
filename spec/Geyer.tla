------------------------------- MODULE Geyer -------------------------------
(* The initial positive sequence estimator of Geyer (geyer_estimators.h), in integers.

   For m samples d with sum S, C(d, k) = sum over i of (m d[i] - S)(m d[i + k] - S) is m^3 times the
   lag-k autocovariance of the samples (the biased one, divided by m).  Gamma_k = C(2k) + C(2k + 1).
   The estimator of m^3 sigma^2 is C(0) + 2 C(1) + 2 (Gamma_1 + ... + Gamma_N), where Gamma_{N + 1} is
   the first that is not positive; a sum that is negative is replaced by C(0).  A Gamma that is
   exactly zero, and a sum that is, may come out on either side in floating point, so the answer is
   a set.                                                                                         *)
EXTENDS Integers, Sequences, TLC

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Total(d) == SumTo(d, Len(d))
\* lagged products of a sequence and across the join of two
Lag(d, k) == IF k >= Len(d) THEN 0 ELSE SumTo([i \in 1..(Len(d) - k) |-> d[i] * d[i + k]], Len(d) - k)
Across(a, b, k) == LET lo == IF k > Len(a) THEN 1 ELSE Len(a) - k + 1
                       n == Len(a) - lo + 1 IN        \* pairs a[i], b[i + k - Len(a)]
  SumTo([j \in 1..n |-> LET i == lo + j - 1  t == i + k - Len(a) IN IF t \in 1..Len(b) THEN a[i] * b[t] ELSE 0], n)
C(d, k) == LET m == Len(d)  s == Total(d)  z == TLCEval([i \in 1..m |-> m * d[i] - s]) IN Lag(z, k)
\* the same from the lagged product of the samples, their sum, and the first and last k of them
Shift(m, s, k, lag, first, last) == m * (m * lag) - (m * s) * (2 * s - first - last) + (m - k) * (s * s)
Gam(c, k) == c[2 * k + 1] + c[2 * k + 2]                       \* c[k + 1] is C(d, k)
RECURSIVE Sums(_, _, _, _)
Sums(c, k, top, acc) == IF k > top THEN {acc} ELSE LET g == Gam(c, k) IN
  IF g < 0 THEN {acc} ELSE IF g = 0 THEN {acc} \cup Sums(c, k + 1, top, acc) ELSE Sums(c, k + 1, top, acc + 2 * g)
Covs(d) == TLCEval([k \in 1..(Len(d) + 2) |-> C(d, k - 1)])
Estimates(d) == LET c == Covs(d) IN
  UNION {IF x < 0 THEN {c[1]} ELSE IF x = 0 THEN {0, c[1]} ELSE {x} : x \in Sums(c, 1, (Len(d) \div 2) - 1, c[1] + 2 * c[2])}
\* the lags up to l leave the sequence of Gammas positive (not negative): the estimator may give up
OutOfLags(d, l) == LET c == Covs(d) IN \A k \in 0..(Len(d) \div 2) : 2 * k + 1 < l => Gam(c, k) >= 0
=============================================================================
