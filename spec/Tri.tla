--------------------------------- MODULE Tri ---------------------------------
(* Triangulations of polygons (tsmcmc.h).

   The vertices of an n-gon are 0..n-1.  A chord is a pair <<a, b>>; the i-th edge (from 0) is
   <<i, i + 1 mod n>>.  A chord system is a sequence of chords.  A triangulation, as reported, is
   [n, d, e, t]: its diagonals and edges (pairs) and its triangles
   [pc, pt, dc, dt, dn]: parent chord and its type, daughter chords, their types, and daughter
   triangles; types are "d" and "e", all indices count from 0, and -1 is "no triangle".         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Un(c) == {c[1], c[2]}
Edge(n, i) == <<i, (i + 1) % n>>
IsDiagonal(n, c) == c[1] \in 0..(n - 1) /\ c[2] \in 0..(n - 1) /\ (c[1] - c[2]) % n \notin {0, 1, n - 1}
Between(a, x, b) == IF a < b THEN a < x /\ x < b ELSE x > a \/ x < b        \* walking up from a to b
\* c and d cross in the interior, or are the same chord
Cross(c, d) == \/ Un(c) = Un(d)
               \/ Un(c) \cap Un(d) = {} /\ (Between(c[1], d[1], c[2]) # Between(c[1], d[2], c[2]))
SystemOK(S) == \A i, j \in 1..Len(S) : i < j => ~Cross(S[i], S[j])

Sides(n, S) == {Un(Edge(n, i)) : i \in 0..(n - 1)} \cup {Un(S[i]) : i \in 1..Len(S)}
\* the faces of a triangulated polygon are exactly its 3-cliques
Faces(n, S) == LET P == TLCEval(Sides(n, S)) IN
  {f \in {{a, b, c} : a, b, c \in 0..(n - 1)} : Cardinality(f) = 3 /\ \A a, b \in f : a # b => {a, b} \in P}
FacesAt(F, s) == {f \in F : s \subseteq f}

(* ---- what a triangulation must be, given the chord system it is made from ---- *)
ChordOf(T, k, type) == IF type = "d" THEN T.d[k + 1] ELSE T.e[k + 1]
IsChord(T, k, type) == IF type = "d" THEN k \in 0..(Len(T.d) - 1) ELSE type = "e" /\ k \in 0..(Len(T.e) - 1)
TriOK(T, i) ==      \* triangle i: three chords head to tail, the parent running backwards unless it is the root's edge
  LET t == T.t[i + 1] IN
  /\ IsChord(T, t.pc, t.pt) /\ \A k \in 1..2 : IsChord(T, t.dc[k], t.dt[k])
  /\ LET p == ChordOf(T, t.pc, t.pt)  x == ChordOf(T, t.dc[1], t.dt[1])  y == ChordOf(T, t.dc[2], t.dt[2])
         from == IF i = 0 THEN p[2] ELSE p[1]  to == IF i = 0 THEN p[1] ELSE p[2] IN
     /\ x[1] = from /\ x[2] = y[1] /\ y[2] = to
     /\ Cardinality({x[1], x[2], y[2]}) = 3
     /\ Between(x[1], x[2], y[2])                \* seen in the order of the polygon
  /\ IF i = 0 THEN t.pt = "e" /\ t.pc = 0 ELSE t.pt = "d"
  /\ \A k \in 1..2 : IF t.dt[k] = "e" THEN t.dn[k] = -1
                     ELSE t.dn[k] \in 1..(Len(T.t) - 1) /\ LET c == T.t[t.dn[k] + 1] IN c.pt = "d" /\ c.pc = t.dc[k]
Verts(T, i) == LET t == T.t[i + 1] IN Un(ChordOf(T, t.dc[1], t.dt[1])) \cup Un(ChordOf(T, t.dc[2], t.dt[2]))
Triangulates(T, n, S) ==
  /\ T.n = n /\ Len(T.e) = n /\ Len(T.d) = n - 3 /\ Len(T.t) = n - 2
  /\ \A i \in 1..n : T.e[i] = Edge(n, i - 1)
  /\ \A i \in 1..(n - 3) : Un(T.d[i]) = Un(S[i])
  /\ \A i \in 0..(n - 3) : TriOK(T, i)
  /\ {Verts(T, i) : i \in 0..(n - 3)} = Faces(n, S)
  /\ \A i \in 1..(n - 3) : Cardinality({<<j, k>> \in (0..(n - 3)) \X (1..2) : T.t[j + 1].dn[k] = i}) = 1

(* ---- the moment polytope: one row per triangle and side, "the other two minus this one is not negative" ---- *)
Row(T, len, plus, minus) ==        \* sides as <<index, type>>; row = constant followed by the coefficient of every diagonal
  LET co(s, g) == [k \in 1..(Len(T.d) + 1) |-> IF s[2] = "e" THEN (IF k = 1 THEN g * len[s[1] + 1] ELSE 0) ELSE IF k = s[1] + 2 THEN g ELSE 0]
      a == co(plus[1], 1)  b == co(plus[2], 1)  c == co(minus, -1)
  IN [k \in 1..(Len(T.d) + 1) |-> a[k] + b[k] + c[k]]
Rows(T, len) ==
  UNION {LET t == T.t[i + 1]  X == <<t.pc, t.pt>>  Y == <<t.dc[1], t.dt[1]>>  Z == <<t.dc[2], t.dt[2]>> IN
         {Row(T, len, <<X, Y>>, Z), Row(T, len, <<Y, Z>>, X), Row(T, len, <<Z, X>>, Y)} : i \in 0..(Len(T.t) - 1)}
RangeOf(s) == {s[i] : i \in 1..Len(s)}
PolytopeOK(P, T, len) == Len(P) = 3 * Len(T.t) /\ RangeOf(P) = Rows(T, len)

(* ---- the named families ---- *)
Fan(n) == {{0, i} : i \in 2..(n - 2)}
Teeth(n) == {{n - 1 - (k \div 2), 1 + ((k + 1) \div 2)} : k \in 0..(n - 4)}
RECURSIVE SpiralFrom(_, _, _)
SpiralFrom(ring, at, k) ==        \* ring: the vertices still there, in order; cut off the one after ring[at]
  IF k = 0 THEN {}
  ELSE LET m == Len(ring)  i == (at % m) + 1  j == ((at + 1) % m) + 1
           r == [x \in 1..(m - 1) |-> ring[IF x < i THEN x ELSE x + 1]]
       IN {{ring[at], ring[j]}} \cup SpiralFrom(r, CHOOSE x \in 1..(m - 1) : r[x] = ring[j], k - 1)
Spiral(n) == SpiralFrom([i \in 1..n |-> i - 1], 1, n - 3)
Family(kind, n) == IF kind = "fan" THEN Fan(n) ELSE IF kind = "teeth" THEN Teeth(n) ELSE Spiral(n)
=============================================================================
