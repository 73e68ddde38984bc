------------------------------- MODULE TriMC -------------------------------
(* Growing a triangulation of a polygon by one chord at a time.  Every maximal set of chords that
   do not cross is a triangulation, and its dual graph is a tree.  The complete histories (order
   and direction of the chords included) are replayed into the code.                            *)
EXTENDS Tri, Json
CONSTANTS Sizes, Directed
VARIABLES n, S
vars == <<n, S>>
Init == n \in Sizes /\ S = <<>>
Diagonals == {c \in (0..(n - 1)) \X (0..(n - 1)) : IsDiagonal(n, c) /\ (Directed \/ c[1] < c[2])}
Add == \E c \in Diagonals : SystemOK(Append(S, c)) /\ S' = Append(S, c) /\ UNCHANGED n
Spec == Init /\ [][Add]_vars
Maximal == ~ENABLED Add
F == Faces(n, S)
Law_Bound == Len(S) <= n - 3 /\ SystemOK(S)
Law_Size == (\A c \in Diagonals : ~SystemOK(Append(S, c))) => Len(S) = n - 3
Law_Faces == Len(S) = n - 3 => LET G == TLCEval(F) IN
  /\ Cardinality(G) = n - 2
  /\ \A i \in 0..(n - 1) : Cardinality(FacesAt(G, Un(Edge(n, i)))) = 1
  /\ \A i \in 1..Len(S) : Cardinality(FacesAt(G, Un(S[i]))) = 2
RECURSIVE Grow(_, _, _)
Grow(G, R, k) == IF k = 0 THEN R ELSE Grow(G, R \cup {g \in G : \E r \in R : Cardinality(g \cap r) = 2}, k - 1)
Law_Tree == Len(S) = n - 3 => LET G == TLCEval(F) IN \A r \in G : Grow(G, {r}, n) = G     \* connected; n - 2 nodes and n - 3 links
Law_Families == \A k \in {"fan", "teeth", "spiral"} : LET C == Family(k, n) IN
  Cardinality(C) = n - 3 /\ \A c \in C, d \in C : c # d => LET a == CHOOSE p \in Diagonals : Un(p) = c  b == CHOOSE p \in Diagonals : Un(p) = d IN ~Cross(a, b)
Emit == Len(S) = n - 3 => PrintT("TRI " \o ToJson(<<n>> \o S))
=============================================================================
