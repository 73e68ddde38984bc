------------------------------ MODULE GeyerMC ------------------------------
(* The streaming form: a buffer of B samples; whenever it is full the lagged products are brought up
   to date and the samples forgotten, except for the first and the last and those that overlap the
   next buffer, L of each.  Whatever the history, what is kept determines every covariance up to
   lag L - 1 exactly.                                                                             *)
EXTENDS Geyer, Json
CONSTANTS Bufs, Values, MaxLen
VARIABLES B, d, buf, lag, first, last, over, sum
vars == <<B, d, buf, lag, first, last, over, sum>>
L == B                                  \* small buffers keep every lag they can
Init == /\ B \in Bufs /\ d = <<>> /\ buf = <<>> /\ lag = [k \in 1..L |-> 0] /\ first = <<>> /\ last = <<>> /\ over = <<>> /\ sum = 0
Tail_(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Add(v) == /\ d' = Append(d, v) /\ sum' = sum + v /\ UNCHANGED B
          /\ first' = (IF Len(first) < L THEN Append(first, v) ELSE first)
          /\ last' = Tail_(Append(last, v), L)
          /\ IF Len(buf) < B THEN buf' = Append(buf, v) /\ UNCHANGED <<lag, over>>
             ELSE /\ lag' = [k \in 1..L |-> lag[k] + Lag(buf, k - 1) + Across(over, buf, k - 1)]
                  /\ over' = Tail_(buf, L) /\ buf' = <<v>>
Next == Len(d) < MaxLen /\ \E v \in Values : Add(v)
Spec == Init /\ [][Next]_vars
Streamed(k) == LET m == Len(d)  p == lag[k + 1] + Lag(buf, k) + Across(over, buf, k)
                   a == SumTo(first, k)  z == Total(Tail_(last, k)) IN Shift(m, sum, k, p, a, z)
Law_Stream == \A k \in 0..(L - 1) : k < Len(d) => Streamed(k) = C(d, k)
\* the variance is not negative, the covariances are symmetric sums that vanish, and the first pair is positive unless the samples are constant
Law_Cov == LET c == Covs(d)  m == Len(d) IN m > 0 =>
  /\ c[1] >= 0 /\ (c[1] = 0) = (\A i \in 1..m : d[i] = d[1])
  /\ c[1] + 2 * SumTo([k \in 1..(m - 1) |-> c[k + 1]], m - 1) = 0
  /\ (c[1] > 0 => c[1] + c[2] > 0)
Law_Est == Len(d) > 0 => \A x \in Estimates(d) : x >= 0
\* turning the samples round, shifting them, or changing their sign changes nothing
Law_Sym == Len(d) > 0 => LET m == Len(d) IN
  /\ Covs([i \in 1..m |-> d[m + 1 - i]]) = Covs(d) /\ Covs([i \in 1..m |-> 3 - d[i]]) = Covs(d)
Emit == Len(d) = MaxLen => PrintT("GEY " \o ToJson(<<B>> \o d))
=============================================================================
