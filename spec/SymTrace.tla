------------------------------ MODULE SymTrace ------------------------------
EXTENDS Sym, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES P, G, l           \* per register: points, group ("none" is <<>>)
Is(p) == IF p THEN TRUE ELSE FALSE
NoG == [m |-> <<>>, t |-> <<>>, inv |-> <<>>]
Same(ev, r) == ev.p = P[r] /\ ev.g = G[r]
GNear(g, h, tol) == Len(g.m) = Len(h.m) /\ g.t = h.t /\ g.inv = h.inv /\ \A i \in 1..Len(g.m) : MNear(g.m[i], h.m[i], tol)
Set(ev, r) == P' = [P EXCEPT ![r] = ev.p] /\ G' = [G EXCEPT ![r] = ev.g]
Inj(f) == \A v, w \in DOMAIN f : v # w => f[v] # f[w]

MadeOK(ev) ==
  LET r == ev.r  E == TLCEval(Elements(ev.kind, ev.a, ev.n))  C == TLCEval([i \in 1..Len(E) |-> Cands(P[r], E[i])]) IN
  /\ ev.p = P[r]
  /\ IF ev.g = NoG THEN \E i \in 1..Len(E) : ~Clear(C[i])
     ELSE /\ GroupOK(ev.g, E, 3) /\ \A i \in 1..Len(E) : ~Clashes(C[i])
          /\ \A j \in 1..Len(E) : LET i == CHOOSE i \in 1..Len(E) : MNear(E[i], ev.g.m[j], 3) IN
               Inj(ev.g.t[j]) /\ \A v \in 1..Len(P[r]) : ev.g.t[j][v] \in C[i][v]
ErrOK(val, d) == Near(val, ISqrt(d), 2)
RotOK(ev, R0) == LET R == TLCEval(R0) IN
                /\ PNear(ev.p, [v \in 1..Len(P[ev.r]) |-> Apply(R, P[ev.r][v])], 2)
                /\ GNear(ev.g, [m |-> [i \in 1..Len(G[ev.r].m) |-> MatMul(MatMul(R, G[ev.r].m[i]), Transp(R))], t |-> G[ev.r].t, inv |-> G[ev.r].inv], 40)
\* the rotation that takes a/|a| to the vertical axis keeps lengths and the height along a
TurnOK(ev) ==
  LET r == ev.r  m == ISqrt(Sq(ev.a)) IN
  /\ Len(ev.p) = Len(P[r]) /\ ev.g.t = G[r].t /\ ev.g.inv = G[r].inv
  /\ \A v \in 1..Len(P[r]) : Near(ev.p[v][3], Rnd(Dot(P[r][v], ev.a), m), 2) /\ Near(ISqrt(Sq(ev.p[v])), ISqrt(Sq(P[r][v])), 2)
  /\ \A i \in 1..Len(G[r].m) : \A v \in 1..Len(P[r]) :      \* and the images of the vertices turn with them
       Near(ISqrt(Sq(Sub(Apply(ev.g.m[i], ev.p[v]), ev.p[ev.g.t[i][v]]))), ISqrt(Sq(Sub(Apply(G[r].m[i], P[r][v]), P[r][G[r].t[i][v]]))), 4)
\* symmetries by any two matrices, and the composition: first the first, then the second
PairOK(ev) ==
  /\ \A i \in 1..2 : LET C == Cands(P[ev.r], ev.a[i]) IN
       IF ev.s[i] = <<>> THEN ~Clear(C)
       ELSE LET x == ev.s[i][1] IN x.m = ev.a[i] /\ ~Clashes(C) /\ Inj(x.t) /\ (\A v \in 1..Len(P[ev.r]) : x.t[v] \in C[v])
                                    /\ ErrOK(x.e, Error([m |-> <<x.m>>, t |-> <<x.t>>], P[ev.r], 1))
  /\ (ev.s[3] # <<>>) = (ev.s[1] # <<>> /\ ev.s[2] # <<>>)
  /\ ev.s[3] # <<>> => LET x == ev.s[3][1]  a == ev.s[1][1]  b == ev.s[2][1] IN
       x.m = MatMul(b.m, a.m) /\ x.t = [v \in 1..Len(P[ev.r]) |-> b.t[a.t[v]]] /\ ErrOK(x.e, Error([m |-> <<x.m>>, t |-> <<x.t>>], P[ev.r], 1))
Step(ev) ==
  \/ ev.op = "reset" /\ UNCHANGED <<P, G>>
  \/ ev.op = "new" /\ Is(ev.g = NoG /\ ev.hid = 1) /\ Set(ev, ev.r)
  \/ ev.op = "move" /\ Is(ev.g = G[ev.r]) /\ Set(ev, ev.r)
  \/ ev.op = "grp" /\ Is(MadeOK(ev)) /\ Set(ev, ev.r)
  \/ ev.op = "sym" /\ Is(ev.hid = 1 /\ ev.g = G[ev.r]) /\ Is(IF G[ev.r] = NoG THEN ev.p = P[ev.r] ELSE IF IsAction(G[ev.r]) THEN PNear(ev.p, Average(G[ev.r], P[ev.r]), 2) ELSE TRUE) /\ Set(ev, ev.r)
  \/ ev.op = "var" /\ Is(Same(ev, ev.r)) /\ UNCHANGED <<P, G>>
     /\ Is(IF G[ev.r] = NoG THEN ev.a = ev.b /\ ev.e = <<0, 0>>
           ELSE /\ IsAction(G[ev.r]) => PNear(ev.a, Average(G[ev.r], ev.b), 2)
                /\ LET M == {Error(G[ev.r], ev.b, i) : i \in 1..Len(G[ev.r].m)}  N == {Error(G[ev.r], ev.a, i) : i \in 1..Len(G[ev.r].m)} IN
                   ErrOK(ev.e[1], CHOOSE d \in M : \A e \in M : e <= d) /\ ErrOK(ev.e[2], CHOOSE d \in N : \A e \in N : e <= d))
  \/ ev.op = "chk" /\ Is(Same(ev, ev.r)) /\ UNCHANGED <<P, G>>
     /\ Is(IF G[ev.r] = NoG THEN ev.all = 0 /\ ev.each = <<>>
           ELSE LET D == TLCEval([i \in 1..Len(G[ev.r].m) |-> Error(G[ev.r], P[ev.r], i)]) IN
                /\ Len(ev.each) = Len(D) /\ \A i \in 1..Len(D) : ErrOK(ev.each[i], D[i])
                /\ ErrOK(ev.all, CHOOSE d \in {D[i] : i \in 1..Len(D)} : \A i \in 1..Len(D) : D[i] <= d))
  \/ ev.op = "comp" /\ Is(Same(ev, ev.r)) /\ UNCHANGED <<P, G>>            \* i first, then j
     /\ Is(LET g == G[ev.r] IN MNear(ev.m, MatMul(g.m[ev.j], g.m[ev.i]), 40) /\ ev.t = [v \in 1..Len(P[ev.r]) |-> g.t[ev.j][g.t[ev.i][v]]])
  \/ ev.op = "pair" /\ Is(Same(ev, ev.r) /\ PairOK(ev)) /\ UNCHANGED <<P, G>>
  \/ ev.op = "copy" /\ Is(ev.p = P[ev.s] /\ ev.g = G[ev.s] /\ ev.hid = 1) /\ Set(ev, ev.r)
  \/ ev.op = "free" /\ P' = [P EXCEPT ![ev.r] = <<>>] /\ G' = [G EXCEPT ![ev.r] = NoG]
  \/ ev.op = "rot" /\ Is(ev.hid = 1 /\ RotOK(ev, Rotation(ev.a, ev.k))) /\ Set(ev, ev.r)
  \/ ev.op = "turn" /\ Is(ev.hid = 1 /\ TurnOK(ev)) /\ Set(ev, ev.r)
  \/ ev.op = "scale" /\ Is(ev.hid = 1 /\ ev.g = G[ev.r] /\ PNear(ev.p, [v \in 1..Len(P[ev.r]) |-> [k \in 1..3 |-> Rnd(P[ev.r][v][k] * ev.k, 256)]], 2)) /\ Set(ev, ev.r)
  \/ ev.op = "trans" /\ Is(ev.hid = 1 /\ ev.g = (IF ev.a = Zero THEN G[ev.r] ELSE NoG) /\ PNear(ev.p, [v \in 1..Len(P[ev.r]) |-> Add(P[ev.r][v], ev.a)], 2)) /\ Set(ev, ev.r)
  \* the group of the old vertices does not outlive them
  \/ ev.op = "edit" /\ Is(ev.hid = 1 /\ ev.g = NoG) /\ Set(ev, ev.r)
Init == P = [r \in 0..2 |-> <<>>] /\ G = [r \in 0..2 |-> NoG] /\ l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<P, G, l>>
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
