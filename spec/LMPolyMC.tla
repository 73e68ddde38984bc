------------------------------ MODULE LMPolyMC ------------------------------
(* Laws of LMPoly on small polynomials: the notation determines the polynomial, *)
(* whatever zeros are written in addition, and the product is one.              *)
EXTENDS LMPoly
CONSTANTS W, Co, MaxT
Pow == (-W)..W
VARIABLES p, r, pad
vars == <<p, r, pad>>
Terms == [l : Pow, m : Pow, c : (-Co..Co) \ {0}]
One == {[l |-> 0, m |-> 0, c |-> 1]}
Init == p = {} /\ r = {} /\ pad = <<0, 0, 0, 0>>
Put(x, t) == {s \in x : Powers(s) # Powers(t)} \cup {t}
Next == \/ \E t \in Terms : Cardinality(p) < MaxT /\ p' = Put(p, t) /\ UNCHANGED <<r, pad>>
        \/ \E t \in Terms : Cardinality(r) < MaxT /\ r' = Put(r, t) /\ UNCHANGED <<p, pad>>
        \/ \E i \in 1..4 : pad[i] < 1 /\ pad' = [pad EXCEPT ![i] = 1] /\ UNCHANGED <<p, r>>
Spec == Init /\ [][Next]_vars
At(x, q, a, b) == (SumOver(x, LAMBDA t : ((t.c * a^(t.l + q)) * b^(t.m + q))))       \* a^q b^q x(a, b)
q0 == -Lo(Pow)
Law_Poly == IsPoly(p, 0) /\ IsPoly(r, 0)
Law_Read == ReadRows(Rows(p, pad[1], pad[2], pad[3], pad[4])) = p
Law_Product == LET x == Product(p, r, 0) IN
  /\ IsPoly(x, 0) /\ x = Product(r, p, 0) /\ Product(p, One, 0) = p
  /\ (x = {} <=> p = {} \/ r = {})
  /\ \A a \in {1, 2, -1, 3} : \A b \in {1, -2, 3} : At(x, 2 * q0, a, b) = At(p, q0, a, b) * At(r, q0, a, b)
  /\ Product({[t EXCEPT !.c = t.c % 7] : t \in p}, r, 7) = {u \in {[t EXCEPT !.c = t.c % 7] : t \in x} : u.c # 0}
=============================================================================
