------------------------------ MODULE SplineMC ------------------------------
(* Design: the relations of module Spline determine the spline.  For every cubic with integral
   coefficients over 0..h they hold between its values and derivatives (scaled so that everything is
   integral), and two cubics that meet with continuous value, tangent and second derivative satisfy
   the relation between neighbours exactly.                                                        *)
EXTENDS Spline
CONSTANTS Range, Lengths
VARIABLES a, h, b
Cs == {x - 2 : x \in Range}
\* x^3 a[4] + x^2 a[3] + x a[2] + a[1]
Val(c, x) == c[1] + x * (c[2] + x * (c[3] + x * c[4]))
Der(c, x) == c[2] + x * ((2 * c[3]) + x * (3 * c[4]))
Der2(c, x) == (2 * c[3]) + (6 * x * c[4])
Init == a \in [1..4 -> Cs] /\ h \in Lengths /\ b = <<>>
\* the next piece starts where this one ends, as smoothly; only its cubic term is free
Next == /\ b = <<>> /\ (Der2(a, h) % 2) = 0
        /\ \E k \in Cs : b' = <<Val(a, h), Der(a, h), Der2(a, h) \div 2, k>>
        /\ UNCHANGED <<a, h>>
Spec == Init /\ [][Next]_<<a, h, b>>
Law_Cubic == LET P == Val(a, 0)  H == 6 * h  Q == Val(a, H)  S == Der(a, 0)  T == Der(a, H) IN
  /\ At13(P, Q, S, T, H) = 27 * Val(a, 2 * h) /\ At23(P, Q, S, T, H) = 27 * Val(a, 4 * h)
  /\ Mid(P, Q, S, T, H) = 4 * H * Der(a, 3 * h)
  /\ Begin2(P, Q, S, T, H) = H * H * Der2(a, 0) /\ Final2(P, Q, S, T, H) = H * H * Der2(a, H)
Law_Join == b # <<>> => \A g \in Lengths :
  h * h * Begin2(Val(b, 0), Val(b, g), Der(b, 0), Der(b, g), g) = g * g * Final2(Val(a, 0), Val(a, h), Der(a, 0), Der(a, h), h)
=============================================================================
