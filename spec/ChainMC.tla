------------------------------ MODULE ChainMC ------------------------------
(* The walk on the diagonal lengths, on a lattice: from an admissible state, one diagonal at a time
   moves by one as long as all triangle inequalities hold.  Laws: no diagonal is ever longer than
   either side of the polygon it cuts off, nor shorter than what closing up demands; the admissible
   lengths are convex, so a straight step between two of them never leaves; cutting at other
   diagonals in between changes nothing.  The states visited, and first steps out of the polytope,
   are replayed into the code.                                                                   *)
EXTENDS Tri, Json
CONSTANTS N, Longest
VARIABLES S, el, dl, start
vars == <<S, el, dl, start>>
Systems == {s \in [1..(N - 3) -> {c \in (0..(N - 1)) \X (0..(N - 1)) : IsDiagonal(N, c) /\ c[1] < c[2]}] :
              SystemOK(s) /\ \A i \in 1..(N - 4) : s[i][1] < s[i + 1][1] \/ (s[i][1] = s[i + 1][1] /\ s[i][2] < s[i + 1][2])}
Length(s, e, d, a, b) ==
  IF \E i \in 0..(N - 1) : Un(Edge(N, i)) = {a, b} THEN e[(CHOOSE i \in 0..(N - 1) : Un(Edge(N, i)) = {a, b}) + 1]
  ELSE d[CHOOSE i \in 1..(N - 3) : Un(s[i]) = {a, b}]
OK(s, e, d) == \A f \in Faces(N, s) : \A a, b, c \in f : Cardinality({a, b, c}) = 3 => Length(s, e, d, a, b) + Length(s, e, d, b, c) >= Length(s, e, d, a, c)
Init == /\ S \in Systems /\ el \in [1..N -> 1..Longest] /\ dl \in [1..(N - 3) -> 0..(2 * Longest)] /\ OK(S, el, dl) /\ start = dl
Next == \E i \in 1..(N - 3), g \in {1, -1} : LET d == [dl EXCEPT ![i] = @ + g] IN OK(S, el, d) /\ dl' = d /\ UNCHANGED <<S, el, start>>
Spec == Init /\ [][Next]_vars
RECURSIVE Walk(_, _)
Walk(a, b) == IF a = b THEN 0 ELSE el[a + 1] + Walk((a + 1) % N, b)          \* along the edges from a to b
Law_Arcs == \A i \in 1..(N - 3) : dl[i] >= 0 /\ dl[i] <= Walk(S[i][1], S[i][2]) /\ dl[i] <= Walk(S[i][2], S[i][1])
Law_Convex == (\A i \in 1..(N - 3) : (dl[i] + start[i]) % 2 = 0) => OK(S, el, [i \in 1..(N - 3) |-> (dl[i] + start[i]) \div 2])
Law_Close == \A i \in 1..N : 2 * el[i] <= Walk(0, N - 1) + el[N]                   \* the polygon inequality
Emit == PrintT("CHN " \o ToJson(<<el, dl, S>>))
=============================================================================
