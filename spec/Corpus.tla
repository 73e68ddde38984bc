------------------------------- MODULE Corpus -------------------------------
(* Every connected link diagram on the sphere, grown one planar-map edge at a time.

   A planar map with k edges is a rotation system sigma on half-edges 0..2k-1 (2i and 2i+1
   are the two ends of edge i).  Adding a pendant edge in a corner, or a chord between two
   corners of one face, reaches every connected planar map; its medial graph is a 4-valent
   map with k crossings, and every connected link shadow is the medial graph of some map.
   Then strands get directions and crossings get signs.                                     *)
EXTENDS PDMoves, Json

CONSTANTS MaxN,          \* crossings
          MinEmit,       \* print only diagrams with at least this many crossings
          Canonical,     \* TRUE: keep maps in canonical form (exhaustive runs)
          Signs,         \* set of signs to decorate with, e.g. {0,1} or {2}
          Directions     \* TRUE: enumerate component directions too

VARIABLES sigma,   \* sequence: sigma[h+1] = next half-edge counterclockwise at h's vertex
          phase,   \* "grow", "dir", "sign", "done"
          sgs,     \* signs given so far
          rev      \* set of strand numbers reversed

vars == <<sigma, phase, sgs, rev>>

NE(s) == Len(s) \div 2
Alpha(h) == IF h % 2 = 0 THEN h + 1 ELSE h - 1
SigInv(s, h) == (CHOOSE i \in 1..Len(s) : s[i] = h) - 1

RECURSIVE CornerWalk(_,_,_,_)
CornerWalk(s, start, h, acc) ==
  LET nx == SigInv(s, Alpha(h))
  IN IF nx = start THEN acc \cup {h} ELSE CornerWalk(s, start, nx, acc \cup {h})
SameFace(s, h) == CornerWalk(s, h, h, {})

AddLeaf(s, h) == LET a == Len(s)  b == a + 1
                 IN [i \in 1..(a+2) |-> IF i = h + 1 THEN a ELSE IF i = a + 1 THEN s[h+1]
                                        ELSE IF i = b + 1 THEN b ELSE s[i]]
AddChord(s, h, g) ==
  LET a == Len(s)  b == a + 1
  IN IF h = g THEN [i \in 1..(a+2) |-> IF i = h + 1 THEN a ELSE IF i = a + 1 THEN b
                                       ELSE IF i = b + 1 THEN s[h+1] ELSE s[i]]
     ELSE [i \in 1..(a+2) |-> IF i = h + 1 THEN a ELSE IF i = a + 1 THEN s[h+1]
                              ELSE IF i = g + 1 THEN b ELSE IF i = b + 1 THEN s[g+1] ELSE s[i]]

\* relabel from root r: labels in order of discovery through sigma, edge by edge
RECURSIVE Relabel(_,_,_,_)
Relabel(s, order, lab, i) ==       \* order: sequence of old half-edges by new label
  IF i > Len(s) THEN [j \in 1..Len(s) |-> lab[s[order[j]+1]]]
  ELSE LET nx == s[order[i]+1]
       IN IF lab[nx] # -1 THEN Relabel(s, order, lab, i + 1)
          ELSE LET k == Len(order)
               IN Relabel(s, Append(Append(order, nx), Alpha(nx)),
                          [lab EXCEPT ![nx] = k, ![Alpha(nx)] = k + 1], i + 1)
Rooted(s, r) == Relabel(s, <<r, Alpha(r)>>,
                        [h \in 0..(Len(s)-1) |-> IF h = r THEN 0 ELSE IF h = Alpha(r) THEN 1 ELSE -1], 1)
Canon(s) == LET C == {Rooted(s, r) : r \in 0..(Len(s)-1)}
            IN CHOOSE c \in C : \A d \in C : LexLE(c, d, 1)
Norm(s) == IF Canonical THEN Canon(s) ELSE s

(* ---- medial graph ---- *)
After(h)  == IF h % 2 = 0 THEN 4 * (h \div 2) + 1 ELSE 4 * (h \div 2) + 3
Before(h) == IF h % 2 = 0 THEN 4 * (h \div 2) + 2 ELSE 4 * (h \div 2)
MedialMate(s) ==
  LET n == NE(s)
  IN [d \in 0..(4*n-1) |->
        LET e == d \div 4
        IN CASE d % 4 = 1 -> Before(s[2*e+1])
             [] d % 4 = 3 -> Before(s[2*e+2])
             [] d % 4 = 2 -> After(SigInv(s, 2*e))
             [] d % 4 = 0 -> After(SigInv(s, 2*e+1))]

\* strands numbered by their smallest dart; direction: the smallest dart is outgoing unless reversed
RECURSIVE DirectFrom(_,_,_,_)
DirectFrom(mate, n, todo, st) ==    \* st = [out, num, k]
  IF todo = {} THEN st
  ELSE LET d0 == CHOOSE d \in todo : \A e \in todo : d <= e
           w  == StrandWalk(mate, d0, d0, <<>>)
           outs == {w[i] : i \in 1..Len(w)}
           ins  == {mate[d] : d \in outs}
       IN DirectFrom(mate, n, todo \ (outs \cup ins),
                     [out |-> [d \in DOMAIN st.out |-> IF d \in outs THEN TRUE ELSE IF d \in ins THEN FALSE ELSE st.out[d]],
                      num |-> [d \in DOMAIN st.num |-> IF d \in outs \cup ins THEN st.k ELSE st.num[d]],
                      k   |-> st.k + 1])
Directed(mate, n) == DirectFrom(mate, n, 0..(4*n-1),
                       [out |-> [d \in 0..(4*n-1) |-> FALSE], num |-> [d \in 0..(4*n-1) |-> 0], k |-> 0])

DiagramOf(s, sg, rv) ==
  LET n == NE(s)  m == MedialMate(s)  st == Directed(m, n)
  IN [n |-> n, mate |-> m,
      out |-> [d \in 0..(4*n-1) |-> IF st.num[d] \in rv THEN ~st.out[d] ELSE st.out[d]],
      sg |-> [c \in 0..(n-1) |-> sg[c+1]],
      tg |-> [d \in 0..(4*n-1) |-> 65 + st.num[d]]]
NStrands(s) == Directed(MedialMate(s), NE(s)).k

Init == /\ sigma \in {<<0,1>>, <<1,0>>}
        /\ phase = "grow" /\ sgs = <<>> /\ rev = {}

GrowStep == /\ phase = "grow" /\ NE(sigma) < MaxN
            /\ \E h \in 0..(Len(sigma)-1) :
                  \/ sigma' = Norm(AddLeaf(sigma, h))
                  \/ \E g \in SameFace(sigma, h) : sigma' = Norm(AddChord(sigma, h, g))
            /\ UNCHANGED <<phase, sgs, rev>>
StartDecorating == /\ phase = "grow" /\ NE(sigma) >= MinEmit
                   /\ phase' = "dir" /\ UNCHANGED <<sigma, sgs, rev>>
PickDirections == /\ phase = "dir" /\ phase' = "sign"
                  /\ rev' \in (IF Directions THEN SUBSET (1..(NStrands(sigma)-1)) ELSE {{}})
                  /\ UNCHANGED <<sigma, sgs>>
PickSign == /\ phase = "sign" /\ Len(sgs) < NE(sigma)
            /\ \E s \in Signs : sgs' = Append(sgs, s)
            /\ UNCHANGED <<sigma, phase, rev>>
Finish == /\ phase = "sign" /\ Len(sgs) = NE(sigma)
          /\ phase' = "done" /\ UNCHANGED <<sigma, sgs, rev>>
Next == GrowStep \/ StartDecorating \/ PickDirections \/ PickSign \/ Finish
Spec == Init /\ [][Next]_vars

Cur == DiagramOf(sigma, sgs, rev)
\* every grown diagram is a connected diagram on the sphere
WellFormed == phase = "done" => DiagramOK(Cur)

Emit == phase = "done" =>
  LET D == Cur IN
  PrintT("CASE " \o ToJson([n |-> D.n,
                 mate |-> [i \in 1..(4*D.n) |-> D.mate[i-1]],
                 out  |-> [i \in 1..(4*D.n) |-> IF D.out[i-1] THEN 1 ELSE 0],
                 sg   |-> sgs]))
=============================================================================
