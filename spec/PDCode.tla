------------------------------- MODULE PDCode -------------------------------
(* Link diagrams ("PD codes") on the 2-sphere.

   Two levels:
   * the CONCRETE projection of the library's diagram object, exactly as the driver logs it
       [n, x, e, c, f, h, u]   (all indices are the library's own 0-based ones)
         x[c+1] = <<e0,e1,e2,e3,sign>>   edges counterclockwise, sign 1 (+) 0 (-) 2 (unset)
         e[k+1] = <<head,headpos,tail,tailpos>>
         c[i+1] = [t |-> tag, e |-> <<edge numbers>>]
         f[i+1] = << <<edge,orient>>, ... >>
   * the ABSTRACT diagram: darts 4c+p (position p at crossing c), an involution `mate`
     pairing darts into edges, `out[d]` (the edge leaves the crossing through d),
     crossing signs and a component tag per dart.  A crossingless circle is n = 0 with tag t0.
   Everything a user means by "the same diagram" is stated on the abstract level.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Opp(d) == (d \div 4) * 4 + ((d + 2) % 4)
CCW(d) == (d \div 4) * 4 + ((d + 1) % 4)
CW(d)  == (d \div 4) * 4 + ((d + 3) % 4)

SeqMin(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m <= s[i]

RECURSIVE LexLE(_,_,_)
LexLE(a, b, i) == \/ i > Len(a)
                  \/ a[i] < b[i]
                  \/ a[i] = b[i] /\ LexLE(a, b, i + 1)

(* --------------------------- abstraction --------------------------- *)
HeadDart(pd, k) == 4 * pd.e[k+1][1] + pd.e[k+1][2]
TailDart(pd, k) == 4 * pd.e[k+1][3] + pd.e[k+1][4]
EdgeAt(pd, d)   == pd.x[(d \div 4) + 1][(d % 4) + 1]

CompOf(pd, k) == CHOOSE i \in 1..Len(pd.c) : \E j \in 1..Len(pd.c[i].e) : pd.c[i].e[j] = k

(* edge number -> tag, using that each component owns a set of edges *)
EdgeTag(pd) == LET ne == Len(pd.e)
               IN TLCEval([k \in 0..(ne-1) |-> pd.c[CompOf(pd, k)].t])

\* pd must satisfy SlotsOK for this to be meaningful
Abs(pd) ==
  IF pd.n = 0 THEN [n |-> 0, t0 |-> pd.c[1].t]
  ELSE LET tg == EdgeTag(pd)
       IN [n    |-> pd.n,
           mate |-> TLCEval([d \in 0..(4*pd.n-1) |->
                       LET k == EdgeAt(pd, d)
                       IN IF TailDart(pd, k) = d THEN HeadDart(pd, k) ELSE TailDart(pd, k)]),
           out  |-> TLCEval([d \in 0..(4*pd.n-1) |-> TailDart(pd, EdgeAt(pd, d)) = d]),
           sg   |-> TLCEval([c \in 0..(pd.n-1) |-> pd.x[c+1][5]]),
           tg   |-> TLCEval([d \in 0..(4*pd.n-1) |-> tg[EdgeAt(pd, d)]])]

Darts(D) == 0..(4*D.n-1)
Crossings(D) == 0..(D.n-1)

(* --------------------------- well-formedness --------------------------- *)
SlotsOK(pd) ==
  /\ Len(pd.x) = pd.n /\ Len(pd.e) = 2 * pd.n
  /\ \A c \in 1..pd.n : pd.x[c][5] \in 0..2 /\ \A p \in 1..4 : pd.x[c][p] \in 0..(2*pd.n-1)
  /\ \A k \in 0..(2*pd.n-1) :
       LET r == pd.e[k+1] IN
       /\ r[1] \in 0..(pd.n-1) /\ r[3] \in 0..(pd.n-1) /\ r[2] \in 0..3 /\ r[4] \in 0..3
       /\ EdgeAt(pd, HeadDart(pd, k)) = k
       /\ EdgeAt(pd, TailDart(pd, k)) = k
       /\ HeadDart(pd, k) # TailDart(pd, k)

\* a strand entering a crossing leaves it on the opposite side
StrandsOK(pd) ==
  \A k \in 0..(2*pd.n-1) :
     LET h == Opp(HeadDart(pd, k)) IN TailDart(pd, EdgeAt(pd, h)) = h

CrossSorted(pd) == \A c \in 1..(pd.n-1) : LexLE(SubSeq(pd.x[c],1,4), SubSeq(pd.x[c+1],1,4), 1)

RECURSIVE SumLens(_,_,_)
SumLens(s, lens, i) == IF i > Len(s) THEN 0 ELSE lens[i] + SumLens(s, lens, i + 1)

CompsOK(pd) ==
  LET lens == [i \in 1..Len(pd.c) |-> Len(pd.c[i].e)]
      start == [i \in 1..Len(pd.c) |-> IF lens[i] = 0 THEN -1 ELSE pd.c[i].e[1]]
  IN /\ Len(pd.c) >= 1
     /\ \A i \in 1..Len(pd.c) :
          LET E == pd.c[i].e IN
          /\ Len(E) > 0
          /\ \A j \in 1..Len(E) :
               /\ E[j] = E[1] + j - 1
               /\ E[j] \in 0..(2*pd.n-1)
          /\ \A j \in 1..Len(E) :      \* head to tail, straight across the crossing
               TailDart(pd, E[(j % Len(E)) + 1]) = Opp(HeadDart(pd, E[j]))
     /\ start[1] = 0
     /\ \A i \in 1..(Len(pd.c)-1) : start[i+1] = start[i] + lens[i]
     /\ start[Len(pd.c)] + lens[Len(pd.c)] = 2 * pd.n
     /\ \A i, j \in 1..Len(pd.c) : i # j => pd.c[i].t # pd.c[j].t

TagsOK(pd) == \A i \in 1..Len(pd.c) : pd.c[i].t >= 65

FacesOK(pd) ==
  LET lens == [i \in 1..Len(pd.f) |-> Len(pd.f[i])]
      Leave(s) == IF s[2] = 1 THEN TailDart(pd, s[1]) ELSE HeadDart(pd, s[1])
      Enter(s) == IF s[2] = 1 THEN HeadDart(pd, s[1]) ELSE TailDart(pd, s[1])
  IN /\ Len(pd.f) = pd.n + 2
     /\ \A i \in 1..Len(pd.f) :
          LET F == pd.f[i] IN
          /\ Len(F) > 0
          /\ \A j \in 1..Len(F) : F[j][1] \in 0..(2*pd.n-1) /\ F[j][2] \in 0..1
          /\ \A j \in 1..Len(F) : Leave(F[(j % Len(F)) + 1]) = CW(Enter(F[j]))
          /\ \A j \in 1..Len(F) : F[1][1] <= F[j][1]
     /\ SumLens(pd.f, lens, 1) = 4 * pd.n
     /\ Cardinality(UNION {{pd.f[i][j] : j \in 1..Len(pd.f[i])} : i \in 1..Len(pd.f)}) = 4 * pd.n
     /\ \A i \in 1..(Len(pd.f)-1) :
          \/ lens[i] > lens[i+1]
          \/ /\ lens[i] = lens[i+1]
             /\ LexLE([j \in 1..lens[i] |-> pd.f[i][j][1]], [j \in 1..lens[i] |-> pd.f[i+1][j][1]], 1)

RECURSIVE ReachCr(_,_,_)
ReachCr(mate, seen, front) ==
  IF front = {} THEN seen
  ELSE LET nxt == {mate[4*c+p] \div 4 : c \in front, p \in 0..3} \ seen
       IN ReachCr(mate, seen \cup nxt, nxt)
ConnectedD(D) == D.n = 0 \/ Cardinality(ReachCr(D.mate, {0}, {0})) = D.n

UnknotOK(pd) ==
  /\ pd.n = 0 /\ Len(pd.x) = 0 /\ Len(pd.e) = 1 /\ Len(pd.c) = 1 /\ Len(pd.f) = 2
  /\ pd.e[1] = <<-1, 4, -1, 4>>
  /\ pd.c[1].e = <<0>>
  /\ pd.f[1] \in {<< <<0,0>> >>, << <<0,1>> >>} /\ pd.f[2] \in {<< <<0,0>> >>, << <<0,1>> >>}
  /\ pd.f[1] # pd.f[2]

\* well formed, except that the tags may be any distinct characters
PdShapeOK(pd) ==
  IF pd.n = 0 THEN UnknotOK(pd)
  ELSE /\ SlotsOK(pd) /\ StrandsOK(pd) /\ CrossSorted(pd) /\ CompsOK(pd) /\ FacesOK(pd)
       /\ ConnectedD(Abs(pd))
PdOK(pd) == PdShapeOK(pd) /\ (pd.n > 0 => TagsOK(pd))

\* well-formed abstract diagram with its Euler characteristic (used on the design level)
RECURSIVE FaceWalk(_,_,_,_)
FaceWalk(mate, start, d, acc) ==
  LET nx == CW(mate[d])
  IN IF nx = start THEN Append(acc, d) ELSE FaceWalk(mate, start, nx, Append(acc, d))
FaceOf(D, d) == FaceWalk(D.mate, d, d, <<>>)          \* darts leaving their crossings, in order
Faces(D) == {LET w == FaceOf(D, d) IN {w[i] : i \in 1..Len(w)} : d \in Darts(D)}

RECURSIVE StrandWalk(_,_,_,_)
StrandWalk(mate, start, d, acc) ==      \* d leaves its crossing
  LET nx == Opp(mate[d])
  IN IF nx = start THEN Append(acc, d) ELSE StrandWalk(mate, start, nx, Append(acc, d))
StrandOf(D, d) == StrandWalk(D.mate, d, d, <<>>)
Strands(D) == {LET w == StrandOf(D, d) IN {w[i] : i \in 1..Len(w)} : d \in {x \in Darts(D) : D.out[x]}}

DiagramOK(D) ==
  \/ D.n = 0
  \/ /\ \A d \in Darts(D) : D.mate[d] \in Darts(D) /\ D.mate[d] # d /\ D.mate[D.mate[d]] = d
     /\ \A d \in Darts(D) : D.out[d] # D.out[D.mate[d]] /\ D.out[d] # D.out[Opp(d)]
     /\ \A d \in Darts(D) : D.tg[d] = D.tg[D.mate[d]] /\ D.tg[d] = D.tg[Opp(d)]
     /\ ConnectedD(D)
     /\ Cardinality(Faces(D)) = D.n + 2

(* --------------------------- equivalences --------------------------- *)
Img(asg, s, d) == LET b == asg[d \div 4] IN (b \div 4) * 4 + ((b + s * (d % 4) + 4) % 4)

\* extend the crossing assignment (crossing -> image of its dart 0, -1 = none) along the
\* mate/rotation structure; <<>> on conflict
RECURSIVE Extend(_,_,_,_,_)
Extend(A, B, s, asg, queue) ==
  IF queue = <<>> THEN asg
  ELSE LET c == Head(queue)
           Step[p \in 0..4] ==          \* after handling positions < p : <<asg, queue>> or <<>>
             IF p = 0 THEN <<asg, Tail(queue)>>
             ELSE LET prev == Step[p-1] IN
                  IF prev = <<>> THEN <<>>
                  ELSE LET a0 == prev[1]
                           d  == 4 * c + (p - 1)
                           m  == A.mate[d]
                           want == B.mate[Img(a0, s, d)]
                           mc == m \div 4
                       IN IF a0[mc] = -1
                          THEN \* image of dart 4*mc so that m goes to want
                               <<[a0 EXCEPT ![mc] = (want \div 4) * 4 + ((want - s * (m % 4) + 4) % 4)],
                                 Append(prev[2], mc)>>
                          ELSE IF Img(a0, s, m) = want THEN prev ELSE <<>>
           res == Step[4]
       IN IF res = <<>> THEN <<>> ELSE Extend(A, B, s, res[1], res[2])

\* dir: edge directions preserved; sgn: signs preserved; tag: tags preserved
AssignOK(A, B, s, asg, dir, sgn, tag) ==
  /\ asg # <<>>
  /\ \A c \in 0..(A.n-1) :
       /\ sgn => A.sg[c] = B.sg[asg[c] \div 4]
       /\ \A d \in (4*c)..(4*c+3) :
            LET i == Img(asg, s, d) IN
            /\ dir => A.out[d] = B.out[i]
            /\ tag => A.tg[d] = B.tg[i]

NoAsg(n) == [c \in 0..(n-1) |-> -1]

LocalOK(A, B, s, d1, d2, dir, sgn, tag) ==
  /\ sgn => A.sg[d1 \div 4] = B.sg[d2 \div 4]
  /\ dir => /\ A.out[d1] = B.out[d2]
            /\ A.out[CCW(d1)] = (IF s = 1 THEN B.out[CCW(d2)] ELSE B.out[CW(d2)])
  /\ tag => A.tg[d1] = B.tg[d2]

\* is there an isomorphism of the embedded diagrams?  S = allowed plane orientations {1}, {-1}, {1,-1}
MapEq0(A, B, S, dir, sgn, tag) ==
  /\ A.n = B.n
  /\ IF A.n = 0 THEN (tag => A.t0 = B.t0)
     ELSE \* identical numbering: nothing to search for
          \/ /\ 1 \in S /\ A.mate = B.mate
             /\ (dir => A.out = B.out) /\ (sgn => A.sg = B.sg) /\ (tag => A.tg = B.tg)
          \/ \E s \in S : \E d2 \in 0..(4*B.n-1) :
            /\ LocalOK(A, B, s, 0, d2, dir, sgn, tag)
            /\ AssignOK(A, B, s,
                        Extend(A, B, s, [NoAsg(A.n) EXCEPT ![0] = d2], <<0>>),
                        dir, sgn, tag)

\* as an expression, not as an action: TLC then stops at the first witness
MapEq(A, B, S, dir, sgn, tag) == IF MapEq0(A, B, S, dir, sgn, tag) THEN TRUE ELSE FALSE

SameDiagram(A, B)       == MapEq(A, B, {1}, TRUE, TRUE, TRUE)      \* sphere isotopy, all decorations
SameUpToTags(A, B)      == MapEq(A, B, {1}, TRUE, TRUE, FALSE)
SameShadow(A, B)        == MapEq(A, B, {1}, FALSE, FALSE, FALSE)   \* shadow, orientation of sphere kept
DiagramIsotopic(A, B)   == MapEq(A, B, {1,-1}, TRUE, TRUE, TRUE)
Isomorphic(A, B)        == MapEq(A, B, {1,-1}, FALSE, FALSE, FALSE)
MapIsomorphic(A, B)     == MapEq(A, B, {1}, FALSE, FALSE, FALSE)

(* --------------------------- over / under --------------------------- *)
\* the two outgoing darts of a crossing, in counterclockwise order <<a, CCW(a)>>
FirstOut(D, c) == CHOOSE d \in (4*c)..(4*c+3) : D.out[d] /\ D.out[CCW(d)]
\* positive: (over) x (under) points out of the page, i.e. over then under is counterclockwise
OverOut(D, c)  == LET a == FirstOut(D, c) IN IF D.sg[c] = 0 THEN CCW(a) ELSE a
UnderOut(D, c) == LET a == FirstOut(D, c) IN IF D.sg[c] = 0 THEN a ELSE CCW(a)
IsOver(D, d)   == d \div 4 >= 0 /\ (d = OverOut(D, d \div 4) \/ Opp(d) = OverOut(D, d \div 4))

Flip(s) == IF s = 2 THEN 2 ELSE 1 - s
=============================================================================
