------------------------------ MODULE PDHomfly ------------------------------
(* The HOMFLY polynomial of an oriented link diagram, computed from its defining relations only:
       l P(L+) + l^-1 P(L-) + m P(L0) = 0,    P(unknot) = 1
   by making the diagram descending one crossing at a time.

   Link data W: visits 2c (over strand at c) and 2c+1 (under strand at c);
     W.nx  : visit -> next visit along the oriented strand (a permutation of the live visits)
     W.sg  : crossing -> 1 / -1          W.loops : circles that meet no crossing
   The planar embedding is not needed: the recursion uses only over/under, signs and succession.

   A polynomial is a function from its support (set of exponents <<l, m>>) to non-zero integers. *)
EXTENDS PDSpec

(* ---------------- polynomials ---------------- *)
PZero == <<>>
PCoef(p, e) == IF e \in DOMAIN p THEN p[e] ELSE 0
PNorm(f) == LET S == {e \in DOMAIN f : f[e] # 0} IN TLCEval([e \in S |-> f[e]])
PAdd(p, q) == PNorm([e \in DOMAIN p \cup DOMAIN q |-> PCoef(p, e) + PCoef(q, e)])
PShift(p, k, dl, dm) == TLCEval([e \in {<<x[1] + dl, x[2] + dm>> : x \in DOMAIN p} |-> k * p[<<e[1] - dl, e[2] - dm>>]])
PMono(k, a, b) == [e \in {<<a, b>>} |-> k]
PMul(p, q) ==
  LET RECURSIVE Acc(_)
      Acc(S) == IF S = {} THEN PZero
                ELSE LET e == CHOOSE x \in S : TRUE IN PAdd(PShift(q, p[e], e[1], e[2]), Acc(S \ {e}))
  IN Acc(DOMAIN p)
Delta == [e \in {<<1, -1>>, <<-1, -1>>} |-> -1]       \* one more split circle: -(l + 1/l) / m
RECURSIVE PPow(_, _)
PPow(p, k) == IF k = 0 THEN PMono(1, 0, 0) ELSE PMul(p, PPow(p, k - 1))

(* ---------------- link data ---------------- *)
LinkData(D) ==
  IF D.n = 0 THEN [nx |-> <<>>, sg |-> <<>>, loops |-> 1]
  ELSE LET VisitOut(d) == IF d = OverOut(D, d \div 4) THEN 2 * (d \div 4) ELSE 2 * (d \div 4) + 1   \* d leaves
           OutDart(v) == IF v % 2 = 0 THEN OverOut(D, v \div 2) ELSE UnderOut(D, v \div 2)
       IN [nx |-> TLCEval([v \in 0..(2*D.n-1) |-> VisitOut(Opp(D.mate[OutDart(v)]))]),
           sg |-> TLCEval([c \in 0..(D.n-1) |-> IF D.sg[c] = 0 THEN -1 ELSE 1]),
           loops |-> 0]

Live(W) == DOMAIN W.nx
RECURSIVE Cyc(_, _, _)
Cyc(nx, start, v) == IF nx[v] = start THEN {v} ELSE {v} \cup Cyc(nx, start, nx[v])
RECURSIVE NCyc(_, _)
NCyc(nx, S) == IF S = {} THEN 0 ELSE LET v == CHOOSE x \in S : TRUE IN 1 + NCyc(nx, S \ Cyc(nx, v, v))
NComps(W) == W.loops + NCyc(W.nx, Live(W))

\* take a visit out of its strand
Drop(W, v) ==
  IF W.nx[v] = v THEN [W EXCEPT !.nx = [x \in Live(W) \ {v} |-> W.nx[x]], !.loops = @ + 1]
  ELSE [W EXCEPT !.nx = [x \in Live(W) \ {v} |-> IF W.nx[x] = v THEN W.nx[v] ELSE W.nx[x]]]
Switch(W, c) ==
  LET sw(v) == IF v \div 2 = c THEN 4 * c + 1 - v ELSE v
  IN [W EXCEPT !.nx = TLCEval([x \in Live(W) |-> sw(W.nx[sw(x)])]), !.sg[c] = -@]
Smooth(W, c) ==
  LET o == 2 * c
      u == 2 * c + 1
      W1 == [W EXCEPT !.nx = TLCEval([x \in Live(W) |-> IF x = o THEN W.nx[u] ELSE IF x = u THEN W.nx[o] ELSE W.nx[x]])]
  IN Drop(Drop(W1, o), u)

\* walk the strands in a fixed order; the first crossing met on its under strand first, or -1
RECURSIVE Walk(_, _, _, _)
Walk(nx, start, v, seen) ==            \* <<bad crossing or -1, crossings seen>>
  LET c == v \div 2 IN
  IF c \notin seen /\ v % 2 = 1 THEN <<c, seen>>
  ELSE IF nx[v] = start THEN <<-1, seen \cup {c}>>
  ELSE Walk(nx, start, nx[v], seen \cup {c})
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE FirstBad(_, _, _)
FirstBad(nx, S, seen) ==
  IF S = {} THEN -1
  ELSE LET v == Least(S)
           w == Walk(nx, v, v, seen)
       IN IF w[1] # -1 THEN w[1] ELSE FirstBad(nx, S \ Cyc(nx, v, v), w[2])

RECURSIVE HomflyW(_)
HomflyW(W) ==
  LET c == FirstBad(W.nx, Live(W), {}) IN
  IF c = -1 THEN PPow(Delta, NComps(W) - 1)
  ELSE IF W.sg[c] = 1
       THEN PAdd(PShift(HomflyW(Switch(W, c)), -1, -2, 0), PShift(HomflyW(Smooth(W, c)), -1, -1, 1))
       ELSE PAdd(PShift(HomflyW(Switch(W, c)), -1, 2, 0), PShift(HomflyW(Smooth(W, c)), -1, 1, 1))
Homfly(D) == HomflyW(LinkData(D))

(* ---------------- the printed form ---------------- *)
\* the string, read as a list of <<coefficient, l, m>>: strictly increasing exponents, no zero terms
Canonical(ms) ==
  /\ Len(ms) >= 1
  /\ \A i \in 1..Len(ms) : ms[i][1] # 0
  /\ \A i \in 1..(Len(ms)-1) : ms[i][2] < ms[i+1][2] \/ (ms[i][2] = ms[i+1][2] /\ ms[i][3] < ms[i+1][3])
PolyOf(ms) == [e \in {<<ms[i][2], ms[i][3]>> : i \in 1..Len(ms)} |->
                 (CHOOSE i \in 1..Len(ms) : <<ms[i][2], ms[i][3]>> = e)]
AsPoly(ms) == LET ix == PolyOf(ms) IN TLCEval([e \in DOMAIN ix |-> ms[ix[e]][1]])
MirrorP(p) == [e \in {<<-x[1], x[2]>> : x \in DOMAIN p} |-> p[<<-e[1], e[2]>>]]

SignedD(D) == D.n = 0 \/ \A c \in Crossings(D) : D.sg[c] # 2
=============================================================================
