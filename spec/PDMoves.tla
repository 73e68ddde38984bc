------------------------------- MODULE PDMoves -------------------------------
(* Operations on diagrams, stated on darts (see PDCode).  Each operator says what the
   library's operation of that name must produce, up to renumbering.                  *)
EXTENDS PDCode

RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})

\* the sub-diagram on crossings K with pairing nm (K must be closed under nm), renumbered in order
Restrict(D, K, nm) ==
  LET s == SortSet(K)
      rk == [c \in K |-> Cardinality({k \in K : k < c})]
      old(d) == 4 * s[(d \div 4) + 1] + (d % 4)
      new(d) == 4 * rk[d \div 4] + (d % 4)
      m == Cardinality(K)
  IN [n    |-> m,
      mate |-> [d \in 0..(4*m-1) |-> new(nm[old(d)])],
      out  |-> [d \in 0..(4*m-1) |-> D.out[old(d)]],
      sg   |-> [c \in 0..(m-1) |-> D.sg[s[c+1]]],
      tg   |-> [d \in 0..(4*m-1) |-> D.tg[old(d)]]]

Circle(t) == [n |-> 0, t0 |-> t]

RECURSIVE PiecesOf(_,_)
PiecesOf(nm, K) ==
  IF K = {} THEN {}
  ELSE LET c == CHOOSE x \in K : TRUE
           P == ReachCr(nm, {c}, {c})
       IN {P} \cup PiecesOf(nm, K \ P)

(* ----- remove the crossings of S, letting both strands run straight through ----- *)
RECURSIVE Through(_,_,_)
Through(mate, S, d) == LET m == mate[d] IN IF m \div 4 \in S THEN Through(mate, S, Opp(m)) ELSE m

\* Set of connected pieces that remain (tags make them distinct); a component all of whose
\* crossings were in S becomes a crossingless circle.
DeleteCrossings(D, S) ==
  LET K  == Crossings(D) \ S
      nm == [d \in UNION {(4*c)..(4*c+3) : c \in K} |-> Through(D.mate, S, d)]
      lost == {D.tg[CHOOSE d \in st : TRUE] : st \in {w \in Strands(D) : \A d \in w : d \div 4 \in S}}
  IN {Restrict(D, P, nm) : P \in PiecesOf(nm, K)} \cup {Circle(t) : t \in lost}

(* ----- Reidemeister 1, deletion ----- *)
IsLoopCrossing(D, c) == \E d \in (4*c)..(4*c+3) : D.mate[d] = CCW(d)
R1Delete(D, c) == CHOOSE P \in DeleteCrossings(D, {c}) : TRUE     \* always exactly one piece

RECURSIVE Deloop(_)
Deloop(D) == IF D.n = 0 THEN D
             ELSE IF \E c \in Crossings(D) : IsLoopCrossing(D, c)
                  THEN Deloop(R1Delete(D, CHOOSE c \in Crossings(D) : IsLoopCrossing(D, c)))
                  ELSE D

(* ----- Reidemeister 2, deletion ----- *)
\* d -> mate[d] and its neighbours bound a bigon between crossings c0 # c1
BigonAt(D, c0, c1) ==
  /\ c0 # c1
  /\ \E d \in (4*c0)..(4*c0+3) :
        /\ D.mate[d] \div 4 = c1
        /\ D.mate[CCW(d)] = CW(D.mate[d])
BigonDarts(D, c0, c1) == CHOOSE d \in (4*c0)..(4*c0+3) :
                            D.mate[d] \div 4 = c1 /\ D.mate[CCW(d)] = CW(D.mate[d])
\* one strand is over at both crossings (or neither crossing carries a sign)
R2Ready(D, c0, c1) ==
  /\ BigonAt(D, c0, c1)
  /\ \/ D.sg[c0] = 2 /\ D.sg[c1] = 2
     \/ /\ D.sg[c0] # 2 /\ D.sg[c1] # 2
        /\ LET d == BigonDarts(D, c0, c1) IN IsOver(D, d) = IsOver(D, D.mate[d])
R2Delete(D, c0, c1) == DeleteCrossings(D, {c0, c1})

(* ----- adding crossings: a record builder ----- *)
\* k new crossings; pairs = set of unordered mates to install, dirs = function new dart -> out?
Grow(D, k, newmates, newout, newtag) ==
  LET n2 == D.n + k
      touched == DOMAIN newmates
  IN [n    |-> n2,
      mate |-> [d \in 0..(4*n2-1) |-> IF d \in touched THEN newmates[d] ELSE D.mate[d]],
      out  |-> [d \in 0..(4*n2-1) |-> IF d < 4*D.n THEN D.out[d] ELSE newout[d]],
      sg   |-> [c \in 0..(n2-1) |-> IF c < D.n THEN D.sg[c] ELSE 2],
      tg   |-> [d \in 0..(4*n2-1) |-> IF d < 4*D.n THEN D.tg[d] ELSE newtag[d]]]

PairFun(ps) == [d \in {p[1] : p \in ps} \cup {p[2] : p \in ps} |->
                 LET p == CHOOSE p \in ps : p[1] = d \/ p[2] = d
                 IN IF p[1] = d THEN p[2] ELSE p[1]]

\* a = dart leaving its crossing along the face (face on the left of a -> mate[a]);
\* a kink whose loop lies in that face
R1Add(D, a) ==
  LET b == D.mate[a]  c == D.n  q == 4 * c
      ps == {<<a, q>>, <<q + 2, q + 3>>, <<q + 1, b>>}
      fwd == D.out[a]         \* strand runs a -> b ?
      newout == [d \in q..(q+3) |-> IF fwd THEN d \in {q + 1, q + 2} ELSE d \in {q, q + 3}]
  IN Grow(D, 1, PairFun(ps), newout, [d \in q..(q+3) |-> D.tg[a]])

\* a, b: two different edges on one face (darts leaving along the face): push the first across
\* the second inside the face
R2Add(D, a, b) ==
  LET a2 == D.mate[a]  b2 == D.mate[b]  q == 4 * D.n  r == 4 * D.n + 4
      ps == {<<a, q>>, <<q + 2, r + 3>>, <<r + 1, a2>>, <<b, r + 2>>, <<r, q + 1>>, <<q + 3, b2>>}
      outA == IF D.out[a] THEN {q + 2, r + 1} ELSE {q, r + 3}
      outB == IF D.out[b] THEN {r, q + 3} ELSE {r + 2, q + 1}
      strandA == {q, q + 2, r + 3, r + 1}
  IN Grow(D, 2, PairFun(ps), [d \in q..(q+7) |-> d \in outA \cup outB],
          [d \in q..(q+7) |-> IF d \in strandA THEN D.tg[a] ELSE D.tg[b]])

(* ----- Reidemeister 3 on a triangular face with three different corners ----- *)
IsTriangle(D, d) == LET w == FaceOf(D, d) IN
                    Len(w) = 3 /\ Cardinality({w[i] \div 4 : i \in 1..3}) = 3
R3(D, d) ==
  LET w == FaceOf(D, d)
      P(i) == w[i]
      Q(i) == D.mate[w[i]]
      outer == UNION {{Opp(P(i)), Opp(Q(i))} : i \in 1..3}
      tau == [x \in outer |-> LET i == CHOOSE i \in 1..3 : x \in {Opp(P(i)), Opp(Q(i))}
                              IN IF x = Opp(P(i)) THEN Q(i) ELSE P(i)]
      T(x) == IF x \in outer THEN tau[x] ELSE x
      inner == {tau[x] : x \in outer}
      inv == [y \in inner |-> CHOOSE x \in outer : tau[x] = y]
      nm == [x \in Darts(D) |->
               IF x \in inner THEN T(D.mate[inv[x]])
               ELSE IF x \in outer
                    THEN LET i == CHOOSE i \in 1..3 : x \in {Opp(P(i)), Opp(Q(i))}
                         IN IF x = Opp(P(i)) THEN Opp(Q(i)) ELSE Opp(P(i))
               ELSE T(D.mate[x])]
  IN [D EXCEPT !.mate = nm]

(* ----- connect sum along edges leaving through darts a (in A) and b (in B) ----- *)
ConnectSum(A, a, B, b) ==
  LET n2 == A.n + B.n  o == 4 * A.n
      a2 == A.mate[a]  b2 == B.mate[b]
  IN [n    |-> n2,
      mate |-> [d \in 0..(4*n2-1) |->
                  IF d = a THEN o + b2 ELSE IF d = o + b2 THEN a
                  ELSE IF d = o + b THEN a2 ELSE IF d = a2 THEN o + b
                  ELSE IF d < o THEN A.mate[d] ELSE o + B.mate[d - o]],
      out  |-> [d \in 0..(4*n2-1) |-> IF d < o THEN A.out[d] ELSE B.out[d - o]],
      sg   |-> [c \in 0..(n2-1) |-> IF c < A.n THEN A.sg[c] ELSE B.sg[c - A.n]],
      tg   |-> [d \in 0..(4*n2-1) |-> IF d < o THEN A.tg[d] ELSE 1000 + B.tg[d - o]]]

(* ----- reversing the component with tag t ----- *)
ReorientComp(D, t) ==
  IF D.n = 0 THEN D
  ELSE [D EXCEPT !.out = [d \in Darts(D) |-> IF D.tg[d] = t THEN ~D.out[d] ELSE D.out[d]],
                 !.sg  = [c \in Crossings(D) |->
                            IF (D.tg[4*c] = t) # (D.tg[4*c+1] = t) THEN Flip(D.sg[c]) ELSE D.sg[c]]]

Mirror(D) == IF D.n = 0 THEN D ELSE [D EXCEPT !.sg = [c \in Crossings(D) |-> Flip(D.sg[c])]]
Shadow(D) == IF D.n = 0 THEN D ELSE [D EXCEPT !.sg = [c \in Crossings(D) |-> 2]]

SameSet(As, Bs) ==      \* two finite families of diagrams agree piece by piece (As a set, Bs a sequence)
  /\ Cardinality(As) = Len(Bs)
  /\ \A i \in 1..Len(Bs) : \E P \in As : SameDiagram(P, Bs[i])
  /\ \A P \in As : \E i \in 1..Len(Bs) : SameDiagram(P, Bs[i])
=============================================================================
