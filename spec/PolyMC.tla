------------------------------ MODULE PolyMC ------------------------------
(* The law behind the chords: walk through the orders of a multiset of integral edges by
   transpositions.  Over all orders reached, the squared chord over k edges has the mean
   k (n - k) / (n (n - 1)) sum |e|^2 if the edges close up, and for signed edges (directions drawn
   independently, both signs alike) the mean k / n sum |e|^2.                                      *)
EXTENDS Poly
CONSTANTS N, Coords
VARIABLES edges, orders
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
RECURSIVE SumV(_, _), SumS(_, _, _)
SumV(s, k) == IF k = 0 THEN <<0, 0>> ELSE Plus(SumV(s, k - 1), s[k])
SumS(e, S, k) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE  v == SumV([i \in 1..k |-> e[p[i]]], k) IN Dot2(v, v) + SumS(e, S \ {p}, k)
RECURSIVE Squares(_, _)
Squares(e, k) == IF k = 0 THEN 0 ELSE Dot2(e[k], e[k]) + Squares(e, k - 1)
Swap(p, i) == [p EXCEPT ![i] = p[i + 1], ![i + 1] = p[i]]
V == {<<a - 1, b - 1>> : a \in Coords, b \in Coords}
Init == edges \in [1..(N - 1) -> V] /\ orders = {[i \in 1..N |-> i]}
Next == LET more == orders \union {Swap(p, i) : p \in orders, i \in 1..(N - 1)} IN more # orders /\ orders' = more /\ UNCHANGED edges
Spec == Init /\ [][Next]_<<edges, orders>>
All == ~ENABLED Next
Shut == LET s == SumV(edges, N - 1) IN Append(edges, <<-s[1], -s[2]>>)
Law_Closed == All => \A k \in 0..N : SumS(Shut, orders, k) * (N * (N - 1)) = (k * (N - k)) * Squares(Shut, N) * Cardinality(orders)
RECURSIVE Signed(_)
Signed(k) == IF k = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Signed(k - 1), x \in {1, -1}}
RECURSIVE SumSigned(_, _, _)
SumSigned(e, S, k) == IF S = {} THEN 0 ELSE LET g == CHOOSE x \in S : TRUE  v == SumV([i \in 1..k |-> <<g[i] * e[i][1], g[i] * e[i][2]>>], k) IN Dot2(v, v) + SumSigned(e, S \ {g}, k)
Law_Open == All => \A k \in 0..(N - 1) : SumSigned(edges, Signed(N - 1), k) = Squares(edges, k) * Cardinality(Signed(N - 1))
\* the fractions used: symmetric in k and n - k, zero at the ends, and of the right order
Law_Fractions == \A kind \in {"closed", "pclosed", "eclosed"}, n \in 3..12 : \A k \in 1..(n - 1) :
  /\ ChordMean(kind, n, k) = ChordMean(kind, n, n - k) /\ ChordMean(kind, n, n)[1] = 0
  /\ ChordMean(kind, n, 1)[1] * SquaredEdge(kind, n)[2] = SquaredEdge(kind, n)[1] * ChordMean(kind, n, 1)[2]
  \* edges of mean length 2 / n: the mean square is at least (2 / n)^2
  /\ (kind # "eclosed" => SquaredEdge(kind, n)[1] * (n * n) >= 4 * SquaredEdge(kind, n)[2])
=============================================================================
