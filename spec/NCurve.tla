------------------------------ MODULE NCurve ------------------------------
(* Curves and vectors of any dimension (nplCurve.h).  A curve is [dim, cp]; a component [open, vt, clr] has its
   vertices (integral vectors of length dim) and colours (four integers each).  Strands of fewer than three
   vertices are open.  A text is a sequence of items [t, s, g, z]: t = "n" a number (z = 1: an integer), "w" a
   word (z = 2: one the scanner may read in part), "#" a comment; the keyword is the word VECT with g its dimension. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mag(x) == IF x < 0 THEN -x ELSE x
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Lesser(x, y) == IF x < y THEN x ELSE y
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Upto(s, n) == Total(SubSeq(s, 1, n))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
----
\* vectors
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VTimes(s, a) == [i \in 1..Len(a) |-> s * a[i]]
VMul(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]
VDot(a, b) == Total(VMul(a, b))
VSq(a) == VDot(a, a)
VZero(n) == [i \in 1..n |-> 0]
RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m - 1)
Cent(n) == SqrtIn(10000 * n, 0, 46340)        \* hundredths of the root of n
----
\* curves
Strand(op, vt, clr) == [open |-> IF Len(vt) < 3 THEN 1 ELSE op, vt |-> vt, clr |-> clr]
Size1(s) == Len(s.vt)
EdgesOf(s) == IF s.open = 1 THEN Size1(s) - 1 ELSE Size1(s)
At(s, j) == s.vt[((j - 1) % Size1(s)) + 1]      \* j = 1, 2, ... cyclically
EdgeLen(s, j) == Cent(VSq(VSub(At(s, j + 1), At(s, j))))
LenFrom(s, a, b) == Total([j \in 1..(b - a) |-> EdgeLen(s, a + j - 1)])     \* from vertex a to vertex b >= a
SubLen(s, a, b) == LET x == Lesser(a, b)  y == (a + b) - x  d == LenFrom(s, x, y) IN
                   IF s.open = 1 THEN d ELSE Lesser(d, LenFrom(s, y, x + Size1(s)))
\* the hidden vertices at both ends
HiddenOf(s) == LET n == Size1(s) IN IF s.open = 1 THEN <<s.vt[2], s.vt[n - 1]>> ELSE <<s.vt[n], s.vt[1]>>
Reverse1(s) == [s EXCEPT !.vt = [j \in 1..Size1(s) |-> s.vt[Size1(s) + 1 - j]]]
ReverseC(L) == [L EXCEPT !.cp = [i \in 1..Len(L.cp) |-> Reverse1(L.cp[i])]]
ComponentC(L, c) == [L EXCEPT !.cp = <<L.cp[c]>>]
PutVertex(L, c, j, v) == [L EXCEPT !.cp[c].vt[j] = v]
----
\* files
Num(x) == [t |-> "n", s |-> "", g |-> x, z |-> 1]
TextOf(L) ==
  <<[t |-> "w", s |-> "VECT", g |-> L.dim, z |-> 1]>>
  \o [k \in 1..3 |-> Num(CASE k = 1 -> Len(L.cp) [] k = 2 -> Total([i \in 1..Len(L.cp) |-> Size1(L.cp[i])]) [] OTHER -> Total([i \in 1..Len(L.cp) |-> Len(L.cp[i].clr)]))]
  \o [i \in 1..Len(L.cp) |-> Num(IF L.cp[i].open = 1 THEN Size1(L.cp[i]) ELSE -Size1(L.cp[i]))]
  \o [i \in 1..Len(L.cp) |-> Num(Len(L.cp[i].clr))]
  \o Flat([i \in 1..Len(L.cp) |-> Flat([j \in 1..Size1(L.cp[i]) |-> [k \in 1..L.dim |-> Num(L.cp[i].vt[j][k])]])])
  \o Flat([i \in 1..Len(L.cp) |-> Flat([j \in 1..Len(L.cp[i].clr) |-> [k \in 1..4 |-> Num(L.cp[i].clr[j][k])]])])

Good(c) == [ok |-> 1, codes |-> {0}, cv |-> c]
Bad(S) == [ok |-> 0, codes |-> S, cv |-> <<>>]
Unknown == [ok |-> 2, codes |-> {}, cv |-> <<>>]
Content(items) == SelectSeq(items, LAMBDA it : it.t # "#")
ParseN(items) ==
  LET D == TLCEval(Content(items))
      nd == Len(D)
      IsI(k) == k <= nd /\ D[k].t = "n" /\ D[k].z = 1
      IsN(k) == k <= nd /\ D[k].t = "n"
      Odd(k) == k <= nd /\ ((D[k].t = "w" /\ D[k].z = 2) \/ (D[k].t = "n" /\ D[k].z = 0))
      Odd2(k) == k <= nd /\ D[k].t = "w" /\ D[k].z = 2
      BadI(a, b) == {k \in a..b : ~IsI(k)}
      BadN(a, b) == {k \in a..b : ~IsN(k)}
      dim == D[1].g  nc == D[2].g
      nvs == [i \in 1..nc |-> D[4 + i].g]
      abn == [i \in 1..nc |-> Mag(nvs[i])]
      ccs == [i \in 1..nc |-> D[4 + nc + i].g]
      v0 == 4 + (2 * nc)
      c0 == v0 + (dim * Total(abn))
      c1 == c0 + (4 * Total(ccs))
  IN
  IF Len(items) = 0 \/ items[1].t # "w" \/ (items[1].s # "VECT" /\ items[1].z # 2) THEN Bad({1})
  ELSE IF items[1].s # "VECT" THEN Unknown
  ELSE IF dim < 1 THEN Bad({1})
  ELSE IF BadI(2, 4) # {} THEN (IF Odd(Least(BadI(2, 4))) THEN Unknown ELSE Bad({2}))
  ELSE IF nc <= 0 THEN Bad({3})
  ELSE IF nc > 200 THEN (IF nd >= 4 + nc \/ \E k \in 5..nd : ~IsI(k) THEN Unknown ELSE Bad({4}))
  ELSE IF BadI(5, 4 + nc) # {} \/ \E k \in 5..Lesser(nd, 4 + nc) : D[k].g = 0
       THEN (IF \E k \in 5..Lesser(nd, 4 + nc) : Odd(k) THEN Unknown ELSE Bad({4}))
  ELSE IF \E i \in 1..nc : abn[i] > 10000 THEN Unknown
  ELSE IF BadI(5 + nc, 4 + (2 * nc)) # {} \/ \E k \in (5 + nc)..Lesser(nd, 4 + (2 * nc)) : D[k].g < 0
       THEN (IF \E k \in (5 + nc)..Lesser(nd, 4 + (2 * nc)) : Odd(k) THEN Unknown ELSE Bad({5}))
  ELSE IF BadN(v0 + 1, c0) # {} THEN (IF \E k \in (v0 + 1)..Lesser(nd, c0) : Odd2(k) THEN Unknown ELSE Bad({7}))
  ELSE IF BadN(c0 + 1, c1) # {} THEN (IF \E k \in (c0 + 1)..Lesser(nd, c1) : Odd2(k) THEN Unknown ELSE Bad({6}))
  ELSE Good([dim |-> dim, cp |-> [i \in 1..nc |-> Strand(IF nvs[i] > 0 THEN 1 ELSE 0,
               [j \in 1..abn[i] |-> [k \in 1..dim |-> D[v0 + (dim * (Upto(abn, i - 1) + j - 1)) + k].g]],
               [j \in 1..ccs[i] |-> [k \in 1..4 |-> D[c0 + (4 * (Upto(ccs, i - 1) + j - 1)) + k].g]])]])
=============================================================================
