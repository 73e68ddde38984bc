------------------------------ MODULE PDQuery ------------------------------
(* What the query functions must answer about a (well-formed) diagram object, stated on the
   abstract diagram: neighbours along a strand, position of an edge on components and faces,
   over/under strands, linking numbers, alternation and interlaced crossing counts.          *)
EXTENDS PDSpec

IsB(p) == IF p THEN TRUE ELSE FALSE

EdgeSet(pd) == 0..(Len(pd.e)-1)

\* edges one step along / against the strand
NextE(pd, k) == EdgeAt(pd, Opp(HeadDart(pd, k)))
PrevE(pd, k) == EdgeAt(pd, Opp(TailDart(pd, k)))

\* <<component, position>> of edge k (0-based)
CompPosOK(pd, k, cp) == /\ cp[1] + 1 \in 1..Len(pd.c)
                        /\ cp[2] + 1 \in 1..Len(pd.c[cp[1]+1].e)
                        /\ pd.c[cp[1]+1].e[cp[2]+1] = k
\* <<posface, pos, negface, pos>>
FacePosOK(pd, k, fp) ==
  /\ fp[1] + 1 \in 1..Len(pd.f) /\ fp[2] + 1 \in 1..Len(pd.f[fp[1]+1]) /\ pd.f[fp[1]+1][fp[2]+1] = <<k, 1>>
  /\ fp[3] + 1 \in 1..Len(pd.f) /\ fp[4] + 1 \in 1..Len(pd.f[fp[3]+1]) /\ pd.f[fp[3]+1][fp[4]+1] = <<k, 0>>
OnFace(pd, k, f) == \E j \in 1..Len(pd.f[f]) : pd.f[f][j][1] = k

\* crossings shared by two components
RECURSIVE SumOver(_, _)
SumOver(S, F) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN F[x] + SumOver(S \ {x}, F)
Between(D, t1, t2) == {c \in Crossings(D) : {D.tg[4*c], D.tg[4*c+1]} = {t1, t2}}
LinkTwice(D, t1, t2) == SumOver(Between(D, t1, t2), [c \in Crossings(D) |-> IF D.sg[c] = 1 THEN 1 ELSE -1])

Alternating(D) == \A d \in Darts(D) : IsOver(D, d) # IsOver(D, D.mate[d])

\* Gauss word of a component: the crossing at the head of every edge, in order
Word(pd, i) == [j \in 1..Len(pd.c[i].e) |-> pd.e[pd.c[i].e[j]+1][1]]
\* positions at which a crossing is visited
At(w, c) == {j \in 1..Len(w) : w[j] = c}
Twice(w) == {c \in {w[j] : j \in 1..Len(w)} : Cardinality(At(w, c)) = 2}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
\* exactly one visit of b lies strictly between the two visits of a
Interlaced(w, a, b) == Cardinality({j \in At(w, b) : j > SetMin(At(w, a)) /\ j < SetMax(At(w, a))}) = 1
Pairs(w) == {p \in Twice(w) \X Twice(w) : p[1] < p[2] /\ Interlaced(w, p[1], p[2])}
\* Polyak's sign of a crossing: do the two outgoing edges, read counterclockwise, come in increasing order?
Polyak(pd, D, c) == LET a == FirstOut(D, c) IN IF EdgeAt(pd, CCW(a)) > EdgeAt(pd, a) THEN 1 ELSE -1
IntSigned(pd, D, i) == LET P == Pairs(Word(pd, i))
                       IN SumOver(P, [p \in P |-> Polyak(pd, D, p[1]) * Polyak(pd, D, p[2])])

Signed(D) == D.n = 0 \/ \A c \in Crossings(D) : D.sg[c] # 2

Query(r, ev) ==
  /\ Has(r) /\ ev.same = 1 /\ regs' = regs
  /\ LET pd == regs[r]
         D == TLCEval(Abs(pd))
         nc == Len(pd.c)
     IN /\ Len(ev.cp) = Len(pd.e) /\ \A k \in EdgeSet(pd) : CompPosOK(pd, k, ev.cp[k+1])
        /\ Len(ev.fp) = Len(pd.e) /\ \A k \in EdgeSet(pd) : FacePosOK(pd, k, ev.fp[k+1])
        /\ Len(ev.of) = Len(pd.f)
        /\ \A f \in 1..Len(pd.f) : \A k \in EdgeSet(pd) : IsB((ev.of[f][k+1] = 1) <=> OnFace(pd, k, f))
        /\ IF pd.n = 0 THEN TRUE
           ELSE /\ \A k \in EdgeSet(pd) : ev.nx[k+1] = NextE(pd, k) /\ ev.pv[k+1] = PrevE(pd, k)
                \* <<over in, over out, under in, under out>> as positions and as edge numbers
                /\ \A c \in Crossings(D) :
                     (D.sg[c] # 2) =>
                     LET want == <<Opp(OverOut(D, c)), OverOut(D, c), Opp(UnderOut(D, c)), UnderOut(D, c)>>
                     IN /\ ev.op4[c+1] = [i \in 1..4 |-> want[i] % 4]
                        /\ ev.oe4[c+1] = [i \in 1..4 |-> EdgeAt(pd, want[i])]
                /\ \A i, j \in 1..nc : (i # j) =>
                     ev.ul[i][j] = Cardinality(Between(D, pd.c[i].t, pd.c[j].t)) \div 2
                /\ \A i \in 1..nc :
                     /\ ev.iu[i] = Cardinality(Pairs(Word(pd, i)))
                     /\ ev.is[i] = IntSigned(pd, D, i)
                /\ Signed(D) =>
                     /\ IsB((ev.alt = 1) <=> Alternating(D))
                     /\ \A i, j \in 1..nc : (i # j) => 2 * ev.lk[i][j] = LinkTwice(D, pd.c[i].t, pd.c[j].t)

\* laws of the answers (checked by TLC on every corpus diagram, independently of the code)
QueryLaws(pd) ==
  LET D == TLCEval(Abs(pd)) IN
  pd.n > 0 =>
  /\ \A k \in EdgeSet(pd) : NextE(pd, PrevE(pd, k)) = k /\ PrevE(pd, NextE(pd, k)) = k
  /\ Signed(D) => \A i, j \in 1..Len(pd.c) : i # j => LinkTwice(D, pd.c[i].t, pd.c[j].t) % 2 = 0
=============================================================================
