------------------------------ MODULE PDTangle ------------------------------
(* Tangles inside diagrams, and sliding a strand across one.

   A tangle is a set T of crossings such that T and the rest are each connected: then the edges
   between the two are met once each by a circle around T.  Darts as in PDCode.                *)
EXTENDS PDHomfly

ReachIn(D, T, c) ==
  LET RECURSIVE Rc(_, _)
      Rc(seen, front) == IF front = {} THEN seen
                         ELSE LET nxt == ({D.mate[4*x+p] \div 4 : x \in front, p \in 0..3} \cap T) \ seen
                              IN Rc(seen \cup nxt, nxt)
  IN Rc({c}, {c})
ConnIn(D, T) == T # {} /\ ReachIn(D, T, CHOOSE c \in T : TRUE) = T
IsTangle(D, T) == T \subseteq Crossings(D) /\ ConnIn(D, T) /\ ConnIn(D, Crossings(D) \ T)
InT(T, d) == d \div 4 \in T
CutDarts(D, T) == {d \in Darts(D) : InT(T, d) /\ ~InT(T, D.mate[d])}

\* the next cut dart counterclockwise
RECURSIVE TurnTo(_, _, _)
TurnTo(D, T, d) == IF InT(T, D.mate[d]) THEN TurnTo(D, T, CCW(D.mate[d])) ELSE d
NextCut(D, T, d) == TurnTo(D, T, CCW(d))

\* the strand entering T through cut dart i: the cut dart it leaves by, and the edges met (both ends counted)
RECURSIVE RunIn(_, _, _, _)
RunIn(D, T, d, k) ==       \* d: dart of T at which the strand arrives, k edges so far
  LET o == Opp(d) IN IF InT(T, D.mate[o]) THEN RunIn(D, T, D.mate[o], k + 1) ELSE <<o, k + 1>>

(* what the library must find when told the boundary (edges te, faces tf of diagram object pd) *)
TangleData(pd, T, ev) ==
  LET D  == Abs(pd)
      N  == Len(ev.te)
      Dt == TLCEval([i \in 1..N |-> CHOOSE d \in CutDarts(D, T) : EdgeAt(pd, d) = ev.te[i]])
      inn == {i \in 1..N : ~D.out[Dt[i]]}          \* edges whose head is inside
      Pos(d) == CHOOSE i \in 1..N : Dt[i] = d
      first == SortSet(inn)
      CompIdx(k) == CompOf(pd, k) - 1
  IN /\ N = Cardinality(CutDarts(D, T)) /\ {Dt[i] : i \in 1..N} = CutDarts(D, T)
     /\ \A i \in 1..N : Dt[(i % N) + 1] = NextCut(D, T, Dt[i])
     \* (the faces given are those clockwise of the outgoing darts)
     /\ \A i \in 1..N : \E j \in 1..Len(pd.f[ev.tf[i] + 1]) :
           pd.f[ev.tf[i] + 1][j] = <<ev.te[i], IF D.out[Dt[i]] THEN 0 ELSE 1>>
     /\ ev.err = 0 /\ ev.okv = 1
     /\ ev.or = [i \in 1..N |-> IF i \in inn THEN 1 ELSE 0] /\ ev.or2 = ev.or
     /\ 2 * Len(ev.st) = N /\ Len(first) = Len(ev.st)
     /\ \A k \in 1..Len(ev.st) :
          LET w == RunIn(D, T, Dt[first[k]], 1) IN
          ev.st[k] = <<first[k] - 1, Pos(w[1]) - 1, w[2], CompIdx(ev.te[first[k]])>>
     /\ ev.ic = SortSet(T)
     /\ ev.ie = SortSet({EdgeAt(pd, d) : d \in {x \in Darts(D) : InT(T, x) /\ InT(T, D.mate[x])}})

(* ---- sliding ---- *)
\* cut darts counterclockwise from i0
RECURSIVE CutsFrom(_, _, _, _)
CutsFrom(D, T, i0, d) == LET nx == NextCut(D, T, d) IN IF nx = i0 THEN <<d>> ELSE <<d>> \o CutsFrom(D, T, i0, nx)

\* The strand passes outside the cut edges of slide[1..k], in this order along its direction;
\* left: T lies on its left.  Its first edge leaves a crossing at dart s0, its last one enters at s1.
StrandIn(D, left, q)  == IF left THEN CCW(q) ELSE CW(q)
StrandOut(D, left, q) == IF left THEN CW(q) ELSE CCW(q)
SlideGood(D, T, slide, left) ==
  LET k == Len(slide)
      q == [i \in 1..k |-> D.mate[slide[i]]]
      X == {q[i] \div 4 : i \in 1..k}
      s0 == D.mate[StrandIn(D, left, q[1])]
      s1 == D.mate[StrandOut(D, left, q[k])]
  IN /\ Cardinality(X) = k /\ X \cap T = {}
     /\ \A i \in 1..k : D.out[StrandOut(D, left, q[i])]
     /\ \A i \in 1..(k-1) : D.mate[StrandOut(D, left, q[i])] = StrandIn(D, left, q[i+1])
     /\ \A i \in 1..k : D.sg[q[i] \div 4] # 2
     /\ \A i \in 1..k : IsOver(D, StrandOut(D, left, q[i])) = IsOver(D, StrandOut(D, left, q[1]))
     \* both ends of the strand are held by crossings that take no part
     /\ s0 \div 4 \notin X \cup T /\ s1 \div 4 \notin X \cup T

\* the diagram with the strand on the other side: kept crossings first, then one per remaining cut edge
SlideResult(D, T, slide, left) ==
  LET k == Len(slide)
      q == [i \in 1..k |-> D.mate[slide[i]]]
      X == {q[i] \div 4 : i \in 1..k}
      s0 == D.mate[StrandIn(D, left, q[1])]
      s1 == D.mate[StrandOut(D, left, q[k])]
      over == IsOver(D, s0) = IsOver(D, s0)
      strandOver == IsOver(D, StrandOut(D, left, q[1]))
      cyc == CutsFrom(D, T, slide[1], slide[1])          \* counterclockwise from the first slid edge
      N == Len(cyc)
      \* remaining cut edges in the order the strand now meets them
      rest == IF left THEN [i \in 1..(N-k) |-> cyc[N + 1 - i]] ELSE [i \in 1..(N-k) |-> cyc[i + 1]]
      M == N - k
      new(i) == 4 * (D.n + i - 1)                       \* base dart of the i-th new crossing
      Far(i) == Through(D.mate, X, rest[i])             \* where the i-th remaining cut edge leads
      inp == IF left THEN 3 ELSE 1                      \* position towards T; strand leaves at 0, enters at 2
      outp == IF left THEN 1 ELSE 3
      ps == {<<rest[i], new(i) + inp>> : i \in 1..M} \cup {<<Far(i), new(i) + outp>> : i \in 1..M}
            \cup {<<new(i), new(i+1) + 2>> : i \in 1..(M-1)}
            \cup (IF M = 0 THEN {} ELSE {<<s0, new(1) + 2>>, <<new(M), s1>>})
      pf == PairFun(ps)
      Base == [d \in UNION {(4*c)..(4*c+3) : c \in Crossings(D) \ X} |-> Through(D.mate, X, d)]
      K == (Crossings(D) \ X) \cup (D.n..(D.n + M - 1))
      nm == TLCEval([d \in UNION {(4*c)..(4*c+3) : c \in K} |-> IF d \in DOMAIN pf THEN pf[d] ELSE Base[d]])
      ci(d) == (d \div 4) - D.n + 1
      o2 == [d \in 0..(4*(D.n + M) - 1) |->
               IF d < 4*D.n THEN D.out[d]
               ELSE CASE d % 4 = 0 -> TRUE [] d % 4 = 2 -> FALSE
                      [] d % 4 = inp -> ~D.out[rest[ci(d)]] [] OTHER -> D.out[rest[ci(d)]]]
      t2 == [d \in 0..(4*(D.n + M) - 1) |->
               IF d < 4*D.n THEN D.tg[d] ELSE IF d % 2 = 0 THEN D.tg[s0] ELSE D.tg[rest[ci(d)]]]
      \* positive when the strand on top, turned counterclockwise, points along the one below
      Sgn(c) == LET upOut == IF o2[4*c+1] THEN TRUE ELSE FALSE     \* transverse strand leaves on the left
                IN IF strandOver THEN (IF upOut THEN 1 ELSE 0) ELSE (IF upOut THEN 0 ELSE 1)
      big == [n |-> D.n + M, mate |-> nm, out |-> o2, tg |-> t2,
              sg |-> [c \in 0..(D.n + M - 1) |-> IF c < D.n THEN D.sg[c] ELSE Sgn(c)]]
  IN {Restrict(big, P, nm) : P \in PiecesOf(nm, K)}

\* the request (edges, border faces) fits more than one place on the boundary
Ambiguous(ev) ==
  LET N == Len(ev.tf)
      n == Len(ev.bf)
      left == ev.a[3] = 1
      fits(j) == \A i \in 1..n : ev.bf[i] = ev.tf[(((IF left THEN j + i - 1 ELSE j - i + 1 + 2*N) - 1) % N) + 1]
  IN Cardinality({j \in 1..N : fits(j)}) > 1

Slide(pd, T, ev) ==
  LET D == Abs(pd)
      N == Len(ev.te)
      Dt == TLCEval([i \in 1..N |-> CHOOSE d \in CutDarts(D, T) : EdgeAt(pd, d) = ev.te[i]])
      left == ev.a[3] = 1
      slide == [i \in 1..ev.a[2] |-> Dt[((IF left THEN ev.a[1] + i - 1 ELSE ev.a[1] - i + 1 + N) % N) + 1]]
      good == SlideGood(D, T, slide, left)
      R == SlideResult(D, T, slide, left)
  IN /\ ev.same = 1
     /\ IF good /\ ~Ambiguous(ev)
        THEN /\ ev.err = 0
             /\ \A i \in 1..Len(ev.out) : PdOK(ev.out[i])
             /\ SameSet(R, [i \in 1..Len(ev.out) |-> Abs(ev.out[i])])
        ELSE IF good THEN ev.err # 0 \/ SameSet(R, [i \in 1..Len(ev.out) |-> Abs(ev.out[i])])
        ELSE ev.err # 0
=============================================================================
