-------------------------------- MODULE Iter --------------------------------
(* The group iterators.  A value is a sequence of elements (one for a plain iterator, several for a
   multi-index), an element [k, m, o]:
     "p" permutation m of 0..n-1, in lexicographic order      "c" rotation, R_0, R_1, ...
     "d" dihedral: o = 1 rotations R_0 .. R_{n-1}, then o = 0 reflections S_0, S_{n-1}, ..., S_1
     "o" orientation: o = 1, then 0
   A multi-index counts like an odometer, last element fastest; after as many increments as it has
   values every iterator is back where it began, having taken each value once.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE obj            \* register -> value

Ident(n) == [i \in 1..n |-> i - 1]
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
New1(k, n) == CASE k = "p" -> [k |-> "p", m |-> Ident(n), o |-> 2]
                [] k = "c" -> [k |-> "c", m |-> Ident(n), o |-> 2]
                [] k = "d" -> [k |-> "d", m |-> Ident(n), o |-> 1]
                [] k = "o" -> [k |-> "o", m |-> <<>>, o |-> 1]
New(k, ns) == [i \in 1..Len(ns) |-> New1(k, ns[i])]

\* lexicographic successor of a permutation
IsLast(m) == \A i \in 1..(Len(m)-1) : m[i] > m[i+1]
NextPerm(m) ==
  IF IsLast(m) THEN Ident(Len(m))
  ELSE LET n == Len(m)
           k == CHOOSE i \in 1..(n-1) : m[i] < m[i+1] /\ \A j \in (i+1)..(n-1) : m[j] > m[j+1]
           h == CHOOSE i \in (k+1)..n : m[k] < m[i] /\ \A j \in (i+1)..n : m[k] > m[j]
           sw == [m EXCEPT ![k] = m[h], ![h] = m[k]]
       IN [i \in 1..n |-> IF i <= k THEN sw[i] ELSE sw[n + k + 1 - i]]
Rot(n, r) == [i \in 1..n |-> (i - 1 + r) % n]
Ref(n, r) == [i \in 1..n |-> (r - (i - 1) + n) % n]
Next1(x) ==
  LET n == Len(x.m) IN
  CASE x.k = "p" -> [x EXCEPT !.m = NextPerm(x.m)]
    [] x.k = "c" -> [x EXCEPT !.m = Rot(n, (x.m[1] + 1) % n)]
    [] x.k = "o" -> [x EXCEPT !.o = 1 - x.o]
    [] x.k = "d" -> IF x.o = 1
                    THEN IF x.m[1] = n - 1 THEN [x EXCEPT !.o = 0, !.m = Ref(n, 0)] ELSE [x EXCEPT !.m = Rot(n, x.m[1] + 1)]
                    ELSE IF x.m[1] = 1 \/ n = 1 THEN [x EXCEPT !.o = 1, !.m = Ident(n)] ELSE [x EXCEPT !.m = Ref(n, (x.m[1] - 1 + n) % n)]
Count1(x) == LET n == Len(x.m) IN CASE x.k = "p" -> Fact(n) [] x.k = "c" -> n [] x.k = "d" -> 2 * n [] x.k = "o" -> 2
First1(x) == New1(x.k, Len(x.m))
RECURSIVE Count(_)
Count(v) == IF v = <<>> THEN 1 ELSE Count1(Head(v)) * Count(Tail(v))

\* odometer: the last element moves; each element that comes round carries to the left
RECURSIVE Carry(_, _)
Carry(v, i) == IF i = 0 THEN v
               ELSE LET nx == Next1(v[i]) w == [v EXCEPT ![i] = nx]
                    IN IF nx = First1(v[i]) THEN Carry(w, i - 1) ELSE w
NextV(v) == Carry(v, Len(v))

(* ---------------- order and group operations ---------------- *)
RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE LexCmp(a, b, i + 1)
Cmp1(x, y) == IF x.o # y.o THEN (IF x.o = 1 THEN -1 ELSE 1) ELSE LexCmp(x.m, y.m, 1)
RECURSIVE CmpV(_, _, _)
CmpV(a, b, i) == IF i > Len(a) THEN 0 ELSE LET c == Cmp1(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpV(a, b, i + 1)
Compose(a, b) == [i \in 1..Len(a) |-> a[b[i] + 1]]
Inverse(a) == [i \in 1..Len(a) |-> (CHOOSE j \in 1..Len(a) : a[j] = i - 1) - 1]
RECURSIVE Power(_, _, _)
Power(a, p, k) == IF p = Ident(Len(a)) THEN k ELSE Power(a, Compose(p, a), k + 1)
Period(a) == Power(a, a, 1)
\* the permutation denoted by disjoint cycles <<c1, c2, ..>>: each entry goes to the next one
FromCycles(cs, n) == [i \in 1..n |->
   IF \E c \in 1..Len(cs) : \E j \in 1..Len(cs[c]) : cs[c][j] = i - 1
   THEN LET c == CHOOSE c \in 1..Len(cs) : \E j \in 1..Len(cs[c]) : cs[c][j] = i - 1
            j == CHOOSE j \in 1..Len(cs[c]) : cs[c][j] = i - 1
        IN cs[c][(j % Len(cs[c])) + 1]
   ELSE i - 1]

(* ---------------- transitions ---------------- *)
SetObj(r, v) == obj' = [i \in DOMAIN obj \cup {r} |-> IF i = r THEN v ELSE obj[i]]
P(r) == obj[r][1].m
PermV(m) == << [k |-> "p", m |-> m, o |-> 2] >>
Shown(ev, v) == ev.val = v /\ ev.ok = 1 /\ ((\A i \in 1..Len(v) : v[i].k = "p" => Len(v[i].m) <= 12) => ev.nv = Count(v))
\* permutations: cycles for small ones, the list of images for others, or too long to show
PrintedPerm(ev, m) ==
  LET n == Len(m) IN
  \/ ev.f = "(" /\ n <= 6 /\ (FromCycles(ev.cyc, n) = m \/ FromCycles(ev.cyc, n) = Inverse(m))
  \/ ev.f = "(" /\ n > 6 /\ ev.cyc = <<m>>
  \/ ev.f = "[" /\ n > 60
PrintedOK(ev, x) ==
  CASE x.k = "o" -> ev.f = "o" /\ ev.cyc = << <<x.o>> >>
    [] x.k = "c" -> ev.f = "r" /\ ev.cyc = << <<x.m[1]>> >>
    [] x.k = "d" -> ev.f = (IF x.o = 1 THEN "r" ELSE "s") /\ ev.cyc = << <<x.m[1]>> >>
    [] x.k = "p" -> PrintedPerm(ev, x.m)
Step(ev) ==
  CASE ev.op = "reset" -> obj' = <<>>
    [] ev.op = "new"   -> Shown(ev, New(ev.k, ev.n)) /\ SetObj(ev.r, ev.val)
    [] ev.op = "incr"  -> Shown(ev, NextV(obj[ev.r])) /\ SetObj(ev.r, ev.val)
    [] ev.op = "home"  -> Shown(ev, obj[ev.r]) /\ (\A i \in 1..Len(ev.val) : ev.val[i] = First1(ev.val[i])) /\ UNCHANGED obj
    [] ev.op = "copy"  -> Shown(ev, obj[ev.s[1]]) /\ SetObj(ev.r, ev.val)
    [] ev.op = "comp"  -> Shown(ev, PermV(Compose(P(ev.s[1]), P(ev.s[2])))) /\ SetObj(ev.r, ev.val)
    [] ev.op = "inv"   -> Shown(ev, PermV(Inverse(P(ev.s[1])))) /\ SetObj(ev.r, ev.val)
    [] ev.op = "star"  -> Shown(ev, PermV(Compose(P(ev.r), P(ev.s[1])))) /\ SetObj(ev.r, ev.val)
    [] ev.op = "period" -> Shown(ev, obj[ev.r]) /\ ev.v = Period(P(ev.r)) /\ (ev.e = 1 <=> P(ev.r) = Ident(Len(P(ev.r)))) /\ UNCHANGED obj
    [] ev.op = "cmp"   -> /\ Shown(ev, obj[ev.r]) /\ ev.v = CmpV(obj[ev.r], obj[ev.s[1]], 1)
                          /\ (ev.eq = 1 <=> obj[ev.r] = obj[ev.s[1]]) /\ UNCHANGED obj
    [] ev.op = "uniq"  -> /\ Shown(ev, obj[ev.r]) /\ UNCHANGED obj
                          /\ (ev.v = 1 <=> \A i, j \in 1..Len(ev.s) : i # j => obj[ev.s[i]] # obj[ev.s[j]])
    [] ev.op = "print" -> Shown(ev, obj[ev.r]) /\ PrintedOK(ev, obj[ev.r][1]) /\ UNCHANGED obj
    [] OTHER           -> FALSE
=============================================================================
