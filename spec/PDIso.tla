------------------------------- MODULE PDIso -------------------------------
(* The three equivalences of diagrams, decided and enumerated.

   An isomorphism of embedded diagrams is a map of darts that commutes with pairing and turns
   each crossing's cyclic order into the image's cyclic order (s = 1) or its reverse (s = -1). *)
EXTENDS PDSpec

DartMaps(X, Y, S, dir, sgn, tag) ==
  LET cand == {<<s, d2>> : s \in S, d2 \in 0..(4*Y.n-1)}
      asg(p) == IF LocalOK(X, Y, p[1], 0, p[2], dir, sgn, tag)
                THEN Extend(X, Y, p[1], [NoAsg(X.n) EXCEPT ![0] = p[2]], <<0>>) ELSE <<>>
      good == {p \in cand : AssignOK(X, Y, p[1], asg(p), dir, sgn, tag)}
  IN IF X.n # Y.n THEN {} ELSE {[s |-> p[1], m |-> LET a == asg(p) IN [d \in Darts(X) |-> Img(a, p[1], d)]] : p \in good}

Verdicts(X, Y) == <<Isomorphic(X, Y), MapIsomorphic(X, Y), DiagramIsotopic(X, Y)>>

Iso(s, t, v) ==
  LET w == Verdicts(A(s), A(t))
  IN /\ \A i \in 1..3 : (v[i] = 1) = w[i]
     /\ regs' = regs

\* the dart map a logged isomorphism describes through its edge map
LoggedMap(pa, pb, t) ==
  [d \in 0..(4*pa.n-1) |->
     LET k == EdgeAt(pa, d)
         im == t.e[k+1]
         tail == TailDart(pa, k) = d
     IN IF tail = (im[2] = 1) THEN TailDart(pb, im[1]) ELSE HeadDart(pb, im[1])]
\* the crossing, component and face maps must be the ones induced by it
Induced(pa, pb, t, m) ==
  /\ \A d \in DOMAIN m : t.x[(d \div 4) + 1] = m[d] \div 4
  /\ \A i \in 1..Len(pa.c) : \A j \in 1..Len(pa.c[i].e) :
        \E q \in 1..Len(pb.c[t.c[i]+1].e) : pb.c[t.c[i]+1].e[q] = t.e[pa.c[i].e[j]+1][1]
  /\ \A i \in 1..Len(pa.f) :
        {pa.f[i][j][1] : j \in 1..Len(pa.f[i])} # {} /\
        {t.e[pa.f[i][j][1]+1][1] : j \in 1..Len(pa.f[i])} = {pb.f[t.f[i]+1][j][1] : j \in 1..Len(pb.f[t.f[i]+1])}
  /\ t.fo = t.xo
Sgn(o) == IF o = 1 THEN 1 ELSE -1

IsosOK(pa, pb, kind, list) ==
  LET X == Abs(pa)  Y == Abs(pb)
      want == IF kind = 0 THEN DartMaps(X, Y, {1,-1}, FALSE, FALSE, FALSE)
              ELSE IF kind = 1 THEN DartMaps(X, Y, {1}, FALSE, FALSE, FALSE)
              ELSE DartMaps(X, Y, {1,-1}, TRUE, TRUE, TRUE)
      got == {[s |-> Sgn(list[i].xo), m |-> LoggedMap(pa, pb, list[i])] : i \in 1..Len(list)}
  IN /\ got = want
     /\ Len(list) = Cardinality(want)
     /\ \A i \in 1..Len(list) : Induced(pa, pb, list[i], LoggedMap(pa, pb, list[i]))
Isos(s, t, kind, list) == IsosOK(regs[s], regs[t], kind, list) /\ regs' = regs

(* ---- the maps from a diagram to itself form a group, and the library computes in it ---- *)
GMap(pa, t) == [s |-> Sgn(t.xo), m |-> LoggedMap(pa, pa, t)]
GMul(a, b) == [s |-> a.s * b.s, m |-> [d \in DOMAIN b.m |-> a.m[b.m[d]]]]
GOne(a) == a.s = 1 /\ \A d \in DOMAIN a.m : a.m[d] = d
RECURSIVE GPeriod(_,_,_)
GPeriod(a, p, k) == IF GOne(p) THEN k ELSE GPeriod(a, GMul(a, p), k + 1)
Autos(s, ev) ==
  LET pa == regs[s]  n == Len(ev.isos)  m == Len(ev.prod)
      g == TLCEval([i \in 1..n |-> GMap(pa, ev.isos[i])])
  IN /\ IsosOK(pa, pa, ev.k, ev.isos) /\ ev.isos2 = ev.isos /\ ev.uni = 1
     /\ \A i \in 1..n : /\ (ev.e[i] = 1) = GOne(g[i])
                        /\ ev.per[i] = GPeriod(g[i], g[i], 1)
                        /\ ev.ok[i] = 1
     /\ \A i, j \in 1..m :
          LET q == ev.prod[i][j]  w == GMul(g[i], g[j]) IN
          /\ GMap(pa, q.p) = w /\ Induced(pa, pa, q.p, w.m)
          /\ (\E k \in 1..n : q.p = ev.isos[k])                    \* closed under multiplication
          /\ q.se = q.p /\ q.ci = 0 /\ q.c = ev.isos[i] /\ q.cc = 0
          /\ (q.i = 1) = GOne(w)
          /\ (q.cmp = 0) = (i = j) /\ ev.prod[j][i].cmp = -q.cmp
          /\ \A k \in 1..m : (q.cmp < 0 /\ ev.prod[j][k].cmp < 0) => ev.prod[i][k].cmp < 0
=============================================================================
