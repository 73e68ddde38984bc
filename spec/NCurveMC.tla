----------------------------- MODULE NCurveMC -----------------------------
(* Histories of operations on one curve of each of several shapes, with the laws of the specification. *)
EXTENDS NCurve, Json
CONSTANTS Dims, MaxC, MaxV, Depth
VARIABLES L, hist
vars == <<L, hist>>
Pt(d, s) == [k \in 1..d |-> (((s * (k + 2)) + (k * k)) % 7) - 3]
Shapes == {[n |-> n, o |-> o, c |-> c] : n \in 1..MaxV, o \in 0..1, c \in 0..2}
Mk(d, i, x) == Strand(x.o, [j \in 1..x.n |-> Pt(d, (5 * i) + (2 * j) + x.n)], [j \in 1..x.c |-> [k \in 1..4 |-> (i + (j * k)) % 5]])
Init == \E d \in Dims, m \in 1..MaxC : \E f \in [1..m -> Shapes] :
          /\ \A i \in 2..m : f[i].n # f[i-1].n        \* thins the product out
          /\ L = [dim |-> d, cp |-> [i \in 1..m |-> Mk(d, i, f[i])]]
          /\ hist = <<>>
Do(w, M) == Len(hist) < Depth /\ hist' = Append(hist, w) /\ L' = M
Next == \/ Do(<<"rev">>, ReverseC(L))
        \/ Do(<<"copy">>, L)
        \/ Do(<<"wr">>, ParseN(TextOf(L)).cv)
        \/ \E c \in 1..Len(L.cp) : Do(<<"comp", c>>, ComponentC(L, c))
        \/ \E c \in 1..Len(L.cp) : \E j \in {1, Size1(L.cp[c])} : Do(<<"set", c, j, Len(hist) + 2>>, PutVertex(L, c, j, VTimes(Len(hist) + 2, Pt(L.dim, j))))
Spec == Init /\ [][Next]_vars
Law_Text == ParseN(TextOf(L)) = Good(L)
Law_Reverse == ReverseC(ReverseC(L)) = L
Law_Cut == \A n \in 0..(Len(TextOf(L)) - 1) : ParseN(SubSeq(TextOf(L), 1, n)).ok = 0
Law_Length == \A i \in 1..Len(L.cp) : LET s == L.cp[i]  r == Reverse1(s)  n == Size1(s) IN
                /\ LenFrom(s, 1, EdgesOf(s) + 1) = LenFrom(r, 1, EdgesOf(s) + 1)
                /\ \A a, b \in 1..n : SubLen(s, a, b) = SubLen(s, b, a) /\ SubLen(s, a, b) = SubLen(r, n + 1 - a, n + 1 - b)
                /\ \A a, b, c \in 1..n : SubLen(s, a, c) <= SubLen(s, a, b) + SubLen(s, b, c)
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================
