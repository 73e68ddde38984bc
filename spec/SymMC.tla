-------------------------------- MODULE SymMC --------------------------------
(* Design: averaging over a symmetry group gives a symmetric curve, changes nothing the second
   time and nothing on a symmetric curve, for the actions that the builder can produce.  Curves are
   orbits of a few points moved by small amounts; all quantities are exact (multiples of 48).     *)
EXTENDS Sym
CONSTANTS Kinds, Reach, Wobble, Steps
VARIABLES kind, seed, P, G, n
\* signed permutation groups only: their matrices are exact
Pts == {[k \in 1..3 |-> 48 * c[k]] : c \in [1..3 -> -Reach..Reach]}
Elts(kk) == CASE kk = "z4" -> Elements("rot", <<0, 0, 1>>, 4) [] kk = "x2" -> Elements("rot", <<1, 0, 0>>, 2)
              [] kk = "rx" -> Elements("ref", <<1, 0, 0>>, 2) [] kk = "planes" -> Elements("planes", Zero, 8)
Pos(E, M) == CHOOSE i \in 1..Len(E) : E[i] = M
\* the orbit of x as a list without repetitions, in the order of the elements
RECURSIVE Listed(_,_,_,_)
Listed(E, x, i, acc) == IF i > Len(E) THEN acc ELSE LET y == Apply(E[i], x) IN Listed(E, x, i + 1, IF \E j \in 1..Len(acc) : acc[j] = y THEN acc ELSE Append(acc, y))
Make(E, Q) == [m |-> E, t |-> [i \in 1..Len(E) |-> [v \in 1..Len(Q) |-> CHOOSE w \in 1..Len(Q) : Q[w] = Apply(E[i], Q[v])]], inv |-> [i \in 1..Len(E) |-> Pos(E, MatMul(Idm, Transp(E[i])))]]
Init == /\ kind \in Kinds /\ seed \in Pts /\ n = 0
        /\ LET E == Elts(kind)  Q == Listed(E, seed, 1, <<>>) IN P = Q /\ G = Make(E, Q)
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<kind, seed, G>>
        /\ \E v \in 1..Len(P), k \in 1..3, d \in {-48 * Wobble, 48 * Wobble} : P' = [P EXCEPT ![v][k] = @ + d]
Spec == Init /\ [][Next]_<<kind, seed, P, G, n>>
Symmetric(Q) == \A i \in 1..Len(G.m) : Error(G, Q, i) = 0
Law_Action == IsAction(G) /\ GroupOK(G, Elts(kind), 0)
Law_Result == Symmetric(Average(G, P))
Law_Twice == Average(G, Average(G, P)) = Average(G, P)
Law_Keeps == Symmetric(P) => Average(G, P) = P
\* nothing moves further than the curve was away from being symmetric
Law_Close == LET W == {Error(G, P, i) : i \in 1..Len(G.m)} IN \A v \in 1..Len(P) : \E d \in W : Sq(Sub(Average(G, P)[v], P[v])) <= d
=============================================================================
