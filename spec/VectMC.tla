------------------------------- MODULE VectMC -------------------------------
(* Design laws of the relations used: rotating, exchanging and reflecting the arguments. *)
EXTENDS Vect
CONSTANTS Grid
VARIABLES p
V == {<<x - 1, y - 1, z - 1>> : x \in Grid, y \in Grid, z \in Grid}
Init == p \in [1..2 -> V]
Next == Len(p) < 4 /\ \E v \in V : p' = Append(p, v)
Spec == Init /\ [][Next]_p
Law_Cross == LET a == p[1]  b == p[2] IN
  /\ Cross(a, b) = Times(-1, Cross(b, a)) /\ Dot(Cross(a, b), a) = 0 /\ Dot(Cross(a, b), b) = 0
  /\ Sq(Cross(a, b)) + (Dot(a, b) * Dot(a, b)) = Sq(a) * Sq(b)
Law_Triple == Len(p) >= 3 => LET a == p[1]  b == p[2]  c == p[3] IN
  /\ Dot(a, Cross(b, c)) = Dot(b, Cross(c, a)) /\ Normal(a, b, c) = Normal(b, c, a) /\ Normal(a, c, b) = Times(-1, Normal(a, b, c))
\* the axis of the dihedral: both normals are perpendicular to it, and turning the quadrilateral round keeps the angle
Law_Hinge == Len(p) = 4 => LET a == p[1]  b == p[2]  c == p[3]  d == p[4] IN
  /\ Dot(Normal(a, b, c), Sub(c, a)) = 0 /\ Dot(Normal(a, c, d), Sub(c, a)) = 0
  /\ Dot(Cross(Normal(a, b, c), Sub(c, a)), Normal(a, c, d)) = Dot(Cross(Normal(c, d, a), Sub(a, c)), Normal(c, a, b))
  \* the faces of a tetrahedron sum to zero
  /\ Add(Add(Normal(a, b, c), Normal(a, c, d)), Add(Normal(a, d, b), Normal(b, d, c))) = Zero
Law_Quads == \A n \in 0..7 : LET Q == Quads(n, 1, 4) IN
  /\ Len(Q) = (n * (n - 1) * (n - 2) * (n - 3)) \div 24
  /\ \A i \in 1..Len(Q) : (\A j \in 1..3 : Q[i][j] < Q[i][j + 1]) /\ (i < Len(Q) => \E j \in 1..4 : Q[i][j] < Q[i + 1][j] /\ \A m \in 1..(j - 1) : Q[i][m] = Q[i + 1][m])
=============================================================================
