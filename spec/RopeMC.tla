------------------------------- MODULE RopeMC -------------------------------
(* Laws of the definition of struts, on random pairs of strands. *)
EXTENDS Rope, Randomization
CONSTANTS Side, Size
VARIABLE crv
Rnd == <<RandomElement(0..Side), RandomElement(0..Side), RandomElement(0..Side)>>
Init == crv = <<>>
Last == crv[Len(crv)]
Next ==
  \/ crv = <<>> /\ \E o \in {RandomElement({0, 1})} : \E x \in {Rnd} : crv' = <<[open |-> o, vt |-> <<x>>]>>
  \/ crv # <<>> /\ Nv(Last) >= Size /\ Len(crv) = 1 /\ \E o \in {RandomElement({0, 1})} : \E x \in {Rnd} : crv' = Append(crv, [open |-> o, vt |-> <<x>>])
  \/ crv # <<>> /\ Nv(Last) < Size /\ \E x \in {Rnd} : crv' = [crv EXCEPT ![Len(crv)].vt = Append(@, x)]
Spec == Init /\ [][Next]_crv
Proper == Len(crv) = 2 /\ Nv(crv[2]) = Size /\ \A i \in 1..2 : \A j \in 0..(NE(crv[i])-1) : Vt(crv[i], j) # Vt(crv[i], j+1)
Turned(s) == [s EXCEPT !.vt = [j \in 1..Nv(s) |-> s.vt[Nv(s) + 1 - j]]]
Val(S) == {<<q.c.num, q.c.den>> : q \in S}
Yes(S) == {q \in S : q.k = "yes"}
Eq(x, y) == x[1] * y[2] = y[1] * x[2]
Within(X, Y) == \A x \in X : \E y \in Y : Eq(x, y)
\* which lengths occur does not depend on the direction of the strands
Reversal == Proper => LET S == Struts(crv)  T == Struts(<<Turned(crv[1]), crv[2]>>) IN Within(Val(Yes(S)), Val(T)) /\ Within(Val(Yes(T)), Val(S))
\* the shortest connection between two components is a strut
Shortest == Proper =>
  LET X == {Closest(Edg(crv, e), Edg(crv, f)) : e \in {g \in EdgesOf(crv) : g[1] = 1}, f \in {g \in EdgesOf(crv) : g[1] = 2}}
      m == CHOOSE x \in X : \A y \in X : ~Less(y, x)
  IN \E q \in Struts(crv) : q.e[1] # q.f[1] /\ Eq(<<q.c.num, q.c.den>>, <<m.num, m.den>>)
\* a strut is locally shortest: no point of the edges near its ends is nearer
Pt(A, n, d) == <<A.a[1] * d + (A.b[1] - A.a[1]) * n, A.a[2] * d + (A.b[2] - A.a[2]) * n, A.a[3] * d + (A.b[3] - A.a[3]) * n>>   \* times d
Local == Proper => \A q \in Yes(Struts(crv)) :
   \A A \in {Edg(crv, q.e)} : \A B \in {Edg(crv, q.f)} :
     \A n \in 0..4, m \in 0..4 : LET x == Pt(A, n, 4)  y == Pt(B, m, 4) IN 16 * q.c.num <= Sq(Sub(x, y)) * q.c.den
=============================================================================
