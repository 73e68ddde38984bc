------------------------------ MODULE PDDesign ------------------------------
(* The specification's own operations, checked against each other on every small diagram:
   moves undo each other, keep the diagram well formed and keep the link type (as seen by the
   polynomial, which PDHomfly computes from over/under data alone, without the planar embedding). *)
EXTENDS Corpus
L == INSTANCE PDTangle WITH regs <- sigma

D0 == Cur
P0 == L!Homfly(D0)
\* the polynomial of a family of separate pieces
RECURSIVE FamP(_)
FamP(S) == LET P == CHOOSE p \in S : TRUE
           IN IF Cardinality(S) = 1 THEN L!Homfly(P) ELSE L!PMul(L!Homfly(P), L!PMul(L!Delta, FamP(S \ {P})))
AllOK(S) == \A P \in S : DiagramOK(P)
done == phase = "done"
SignNew(D, c) == [D EXCEPT !.sg[c] = 1]

R1Undo == done => \A a \in Darts(D0) :
            LET E == SignNew(R1Add(D0, a), D0.n)
            IN DiagramOK(E) /\ IsLoopCrossing(E, D0.n) /\ SameDiagram(R1Delete(E, D0.n), D0) /\ L!Homfly(E) = P0
R1Keep == done => \A c \in Crossings(D0) : IsLoopCrossing(D0, c) =>
            LET E == R1Delete(D0, c) IN DiagramOK(E) /\ L!Homfly(E) = P0
R2Undo == done => \A a \in Darts(D0) : LET w == FaceOf(D0, a) IN
            \A j \in 2..Len(w) : w[j] # D0.mate[a] =>
              LET E == R2Add(D0, a, w[j]) IN DiagramOK(E) /\ SameSet(R2Delete(E, D0.n, D0.n + 1), <<D0>>)
R2Keep == done => \A c, d \in Crossings(D0) : R2Ready(D0, c, d) =>
            LET S == R2Delete(D0, c, d) IN AllOK(S) /\ FamP(S) = P0
\* one of the three strands of the triangle lies on top, one at the bottom
Layered(d) == LET w == FaceOf(D0, d)
                  up(i) == Cardinality({x \in {w[i], D0.mate[w[i]]} : IsOver(D0, x)})
              IN {up(i) : i \in 1..3} = {0, 1, 2}
R3Keep == done => \A d \in Darts(D0) : IsTriangle(D0, d) =>
            LET E == R3(D0, d)
                \* the triangle of the new diagram with the same three corners
                C == {FaceOf(D0, d)[i] \div 4 : i \in 1..3}
            IN /\ DiagramOK(E)
               /\ \E x \in Darts(E) : IsTriangle(E, x) /\ {FaceOf(E, x)[i] \div 4 : i \in 1..3} = C /\ SameDiagram(R3(E, x), D0)
               /\ Layered(d) => L!Homfly(E) = P0
SlideKeep == done => \A T \in SUBSET Crossings(D0) : L!IsTangle(D0, T) =>
               \A i \in L!CutDarts(D0, T) : \A k \in 1..Cardinality(L!CutDarts(D0, T)) : \A left \in BOOLEAN :
                 LET cyc == L!CutsFrom(D0, T, i, i)
                     N == Len(cyc)
                     sl == [j \in 1..k |-> IF left THEN cyc[j] ELSE cyc[((N - j + 1) % N) + 1]]
                 IN L!SlideGood(D0, T, sl, left) =>
                    LET S == L!SlideResult(D0, T, sl, left) IN AllOK(S) /\ FamP(S) = P0
MirrorLaw == done => L!Homfly(Mirror(D0)) = L!MirrorP(P0)
RECURSIVE RevAll(_, _)
RevAll(D, t) == IF t = 65 + NStrands(sigma) THEN D ELSE RevAll(ReorientComp(D, t), t + 1)
ReverseLaw == done => L!Homfly(RevAll(D0, 65)) = P0
SumLaw == done => \A a \in {x \in Darts(D0) : D0.out[x]} :
            LET E == ConnectSum(D0, a, D0, 0 + (CHOOSE x \in Darts(D0) : D0.out[x]))
            IN DiagramOK([E EXCEPT !.tg = [x \in Darts(E) |-> 0]]) /\ L!Homfly(E) = L!PMul(P0, P0)
=============================================================================
