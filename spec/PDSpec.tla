------------------------------- MODULE PDSpec -------------------------------
(* The library's diagram objects as a state machine.

   State: a register file of diagram objects (the concrete projections of PDCode).
   Each action is one public call; its result is constrained up to the freedom the library
   has (numbering of crossings, edges, faces; tags where they are re-issued).              *)
EXTENDS PDMoves

VARIABLE regs        \* function: register number -> concrete diagram object

NoRegs == <<>>       \* the empty register file (a function with empty domain)
Set(r, pd) == regs' = [i \in DOMAIN regs \cup {r} |-> IF i = r THEN pd ELSE regs[i]]
Keep(r, pd) == IF r < 0 THEN regs' = regs ELSE Set(r, pd)
Has(r) == r \in DOMAIN regs
A(r) == Abs(regs[r])

\* abstract diagram from the flat dart lists a script gives
FromDarts(in) ==
  IF in.n = 0 THEN Circle(65)
  ELSE [n |-> in.n,
        mate |-> [d \in 0..(4*in.n-1) |-> in.mate[d+1]],
        out  |-> [d \in 0..(4*in.n-1) |-> in.out[d+1] = 1],
        sg   |-> [c \in 0..(in.n-1) |-> in.sg[c+1]],
        tg   |-> [d \in 0..(4*in.n-1) |-> 0]]
AllUnset(D) == D.n = 0 \/ \A c \in Crossings(D) : D.sg[c] = 2

\* components longest first
LongestFirst(pd) == \A i \in 1..(Len(pd.c)-1) : Len(pd.c[i].e) >= Len(pd.c[i+1].e)

\* regenerating a diagram from its crossings (and edges, when signs make directions meaningful)
Build(r, in, o) ==
  /\ PdOK(o) /\ LongestFirst(o)
  /\ LET D == FromDarts(in) IN
     IF D.n = 0 THEN o.n = 0
     ELSE IF AllUnset(D) THEN SameShadow(D, Abs(o)) /\ AllUnset(Abs(o))
     ELSE SameUpToTags(D, Abs(o))
  /\ Set(r, o)

\* the user wrote into the object's decoration fields (tags, signs, uid): structure must be intact
Load(r, o) == PdOK(o) /\ Set(r, o)

Regen(r, o) ==
  /\ Has(r) /\ PdOK(o) /\ LongestFirst(o)
  /\ IF AllUnset(A(r)) THEN SameShadow(A(r), Abs(o)) ELSE SameUpToTags(A(r), Abs(o))
  /\ o.h = regs[r].h
  /\ Set(r, o)

Copy(r, s, o) == Has(s) /\ o = regs[s] /\ Set(r, o)

Reorient(r, comp, orient, o) ==
  /\ Has(r) /\ PdOK(o)
  /\ comp + 1 \in 1..Len(regs[r].c)
  /\ IF orient = 0 THEN SameDiagram(ReorientComp(A(r), regs[r].c[comp+1].t), Abs(o))
     ELSE o = regs[r]
  /\ o.h = regs[r].h /\ o.u = regs[r].u
  /\ Set(r, o)

Renumber(r, comp, ofs, o) ==
  /\ Has(r) /\ PdOK(o)
  /\ SameDiagram(A(r), Abs(o))
  \* the numbers of that component's edges are rotated cyclically by ofs (the documentation says
  \* "adding ofs"; the code has always moved the numbers the other way round: both are a
  \* renumbering by ofs, so either direction is accepted); nothing else is renumbered.
  \* Visible as the multiset of crossing rows, each read cyclically.
  /\ LET E == regs[r].c[comp+1].e
         L == Len(E)
         new(k, w) == IF \E j \in 1..L : E[j] = k
                      THEN LET j == CHOOSE j \in 1..L : E[j] = k IN E[((j - 1 + w) % L) + 1]
                      ELSE k
         Rot(x) == {<< <<x[j], x[(j % 4) + 1], x[((j + 1) % 4) + 1], x[((j + 2) % 4) + 1]>>, x[5]>> : j \in 1..4}
         NewRow(x, w) == <<new(x[1], w), new(x[2], w), new(x[3], w), new(x[4], w), x[5]>>
     IN regs[r].n > 0 => \E w \in {ofs % L, (L - (ofs % L)) % L} :
          {Rot(NewRow(regs[r].x[i], w)) : i \in 1..regs[r].n} = {Rot(o.x[i]) : i \in 1..o.n}
  /\ o.h = regs[r].h /\ o.u = regs[r].u
  /\ Set(r, o)

\* tags survive operations that rename nothing
R1Del(r, s, c, o) ==
  /\ Has(s) /\ PdOK(o)
  /\ c \in Crossings(A(s)) /\ IsLoopCrossing(A(s), c)
  /\ SameDiagram(R1Delete(A(s), c), Abs(o))
  /\ Keep(r, o)

\* the dart along which side j of face f leaves its crossing
SideDart(pd, f, j) == LET s == pd.f[f+1][j+1]
                      IN IF s[2] = 1 THEN TailDart(pd, s[1]) ELSE HeadDart(pd, s[1])

R1AddAt(r, s, f, j, o) ==
  /\ Has(s) /\ PdOK(o)
  /\ IF regs[s].n = 0 THEN o.n = 1
     ELSE SameUpToTags(R1Add(A(s), SideDart(regs[s], f, j)), Abs(o))
  /\ Keep(r, o)

R2AddAt(r, s, f, i, j, o) ==
  /\ Has(s) /\ PdOK(o)
  /\ regs[s].f[f+1][i+1][1] # regs[s].f[f+1][j+1][1]
  /\ SameUpToTags(R2Add(A(s), SideDart(regs[s], f, i), SideDart(regs[s], f, j)), Abs(o))
  /\ Keep(r, o)

R3At(r, s, f, o) ==
  /\ Has(s) /\ PdOK(o)
  /\ LET d == SideDart(regs[s], f, 0) IN
     /\ IsTriangle(A(s), d)
     /\ SameUpToTags(R3(A(s), d), Abs(o))
  /\ Keep(r, o)

\* the bigon disappears; if the diagram falls apart, the piece holding the strand that was on
\* top comes first (no order is promised when the crossings carry no sign)
R2Del(r, s, c0, c1, outs) ==
  /\ Has(s)
  /\ \A i \in 1..Len(outs) : PdOK(outs[i])
  /\ R2Ready(A(s), c0, c1)
  /\ Len(outs) \in 1..2
  /\ SameSet(R2Delete(A(s), c0, c1), [i \in 1..Len(outs) |-> Abs(outs[i])])
  /\ (Len(outs) = 2 /\ A(s).sg[c0] # 2) =>
        \E i \in 1..Len(outs[1].c) : outs[1].c[i].t = A(s).tg[OverOut(A(s), c0)]
  /\ Keep(r, outs[1])

\* the connected pieces of diagrams drawn side by side are these diagrams, each as often as it was drawn
SplitInto(ss, outs) ==
  LET Os == TLCEval([i \in 1..Len(outs) |-> Abs(outs[i])]) IN
  /\ \A i \in 1..Len(ss) : Has(ss[i])
  /\ \A i \in 1..Len(outs) : PdOK(outs[i])
  /\ Len(outs) = Len(ss)
  /\ \A i \in 1..Len(ss) : Cardinality({k \in 1..Len(ss) : SameDiagram(A(ss[i]), A(ss[k]))})
                          = Cardinality({k \in 1..Len(outs) : SameDiagram(A(ss[i]), Os[k])})

Simplify(r, s, o) ==
  /\ Has(s) /\ PdOK(o)
  /\ SameDiagram(Deloop(A(s)), Abs(o))
  /\ Keep(r, o)

ConSum(r, s, ea, t, eb, o) ==
  /\ Has(s) /\ Has(t) /\ PdOK(o)
  \* the crossingless circle is the unit of the operation
  /\ IF regs[s].n = 0 THEN SameUpToTags(A(t), Abs(o))
     ELSE IF regs[t].n = 0 THEN SameUpToTags(A(s), Abs(o))
     ELSE SameUpToTags(ConnectSum(A(s), TailDart(regs[s], ea), A(t), TailDart(regs[t], eb)), Abs(o))
  /\ Keep(r, o)
=============================================================================
