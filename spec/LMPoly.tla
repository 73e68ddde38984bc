------------------------------- MODULE LMPoly -------------------------------
(* Laurent polynomials in l and m with integer coefficients and the notations *)
(* of src/polynomials.h for them.  A polynomial is a set of terms             *)
(* [l |-> , m |-> , c |-> ] with at most one term for each pair of powers and *)
(* no zero coefficient.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Powers(t) == <<t.l, t.m>>
IsPoly(p, zero) == (\A s \in p, t \in p : Powers(s) = Powers(t) => s = t) /\ \A t \in p : t.c # zero
Before(s, t) == s.l < t.l \/ (s.l = t.l /\ s.m < t.m)
Sorted(p) == SetToSortSeq(p, Before)                       \* the order of the library: by l, then by m
Lo(S) == Min(S \cup {0})
Hi(S) == Max(S \cup {0})
(* ---- lmpoly's notation: one row for each power of m, ended by N; the row of m^0 and the coefficient of l^0 are bracketed ---- *)
Join(s, sep) == FoldLeftDomain(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE sep) \o s[i], "", s)
Coeff(p, i, j) == LET T == {t \in p : t.l = i /\ t.m = j} IN IF T = {} THEN "0" ELSE (CHOOSE t \in T : TRUE).s
Row(p, j, left, right) ==
  LET L == {t.l : t \in {t \in p : t.m = j}}  a == Lo(L) - left  b == Hi(L) + right
      w == [k \in 1..(b - a + 1) |-> LET i == a + k - 1  c == Coeff(p, i, j) IN IF i = 0 THEN "[" \o c \o "]" ELSE c]
  IN (IF j = 0 THEN "[" ELSE "") \o Join(w, " ") \o (IF j = 0 THEN "]" ELSE "") \o "N"
LmText(p, left, right, below, above) ==                    \* with extra zeros at the ends of the rows and extra rows of zeros
  LET M == {t.m : t \in p}  a == Lo(M) - below  b == Hi(M) + above
  IN Join([k \in 1..(b - a + 1) |-> Row(p, a + k - 1, left, right)], "") \o " "
(* ---- reading it back: the rows of the text as sequences of numbers, given where the bracketed ones are ---- *)
Rows(p, left, right, below, above) ==                      \* the same text as rows of coefficients: what a reader sees
  LET M == {t.m : t \in p}  a == Lo(M) - below  b == Hi(M) + above IN
  [rows |-> [k \in 1..(b - a + 1) |->
     LET j == a + k - 1  L == {t.l : t \in {t \in p : t.m = j}}  x == Lo(L) - left  y == Hi(L) + right
     IN [zero |-> 1 - x, c |-> [i \in 1..(y - x + 1) |-> LET T == {t \in p : t.l = x + i - 1 /\ t.m = j} IN IF T = {} THEN 0 ELSE (CHOOSE t \in T : TRUE).c]]],
   zero |-> 1 - a]
ReadRows(r) == UNION {{[l |-> i - r.rows[k].zero, m |-> k - r.zero, c |-> r.rows[k].c[i]] : i \in {i \in 1..Len(r.rows[k].c) : r.rows[k].c[i] # 0}} : k \in 1..Len(r.rows)}
(* ---- the other notations, for the terms in the order of the sequence s ---- *)
Latex(s) ==
  FoldLeftDomain(LAMBDA a, i : LET t == s[i] IN a
    \o (IF i = 1 THEN (IF t.neg = 1 THEN "-" ELSE "") ELSE IF t.neg = 1 THEN " - " ELSE " + ")
    \o (IF t.abs # "1" \/ (t.l = 0 /\ t.m = 0) THEN t.abs ELSE "")
    \o (IF t.l # 0 THEN "a^{" \o ToString(t.l) \o "}" ELSE "")
    \o (IF t.m # 0 THEN "z^{" \o ToString(t.m) \o "}" ELSE ""), "", s)
Mathematica(s) ==
  FoldLeftDomain(LAMBDA a, i : LET t == s[i] IN a \o (IF i = 1 THEN "" ELSE " + ") \o "(" \o t.s \o ")"
    \o (IF t.l # 0 THEN "*a^(" \o ToString(t.l) \o ")" ELSE "")
    \o (IF t.m # 0 THEN "*z^(" \o ToString(t.m) \o ")" ELSE ""), "", s)
KnotTheory(s) == FoldLeftDomain(LAMBDA a, i : LET t == s[i] IN a \o (IF i = 1 THEN "" ELSE " + ") \o t.s \o " a^" \o ToString(t.l) \o " z^" \o ToString(t.m), "", s)
(* ---- products; coefficients are kept modulo q, q = 0 for the integers themselves ---- *)
Norm(x, q) == IF q = 0 THEN x ELSE x % q
SumOver(S, f(_)) == FoldSet(LAMBDA x, a : f(x) + a, 0, S)
Product(p, r, q) ==
  LET P == {<<s.l + t.l, s.m + t.m>> : s \in p, t \in r}
      co(x) == Norm(SumOver({w \in p \X r : w[1].l + w[2].l = x[1] /\ w[1].m + w[2].m = x[2]}, LAMBDA w : Norm(w[1].c * w[2].c, q)), q)
  IN {u \in {[l |-> x[1], m |-> x[2], c |-> co(x)] : x \in P} : u.c # 0}
=============================================================================
