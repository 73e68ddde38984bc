----------------------------- MODULE PDProjMC ------------------------------
(* Design check of PDProj: closed polygons grown one vertex at a time.  In general position the
   construction yields a planar oriented diagram, and two directions of projection give diagrams
   with the same HOMFLY polynomial.                                                           *)
EXTENDS PDProj
CONSTANTS G, Z, MaxLen, MaxN
VARIABLE v
Init == v = << <<>> >> /\ regs = NoRegs
AddVertex == Len(v[1]) < MaxLen /\ v' = << Append(v[1], <<RandomElement(0..G), RandomElement(0..G), RandomElement(0..Z)>>) >>
Next == AddVertex /\ UNCHANGED regs
Spec == Init /\ [][Next]_<<v, regs>>
ok == Len(v[1]) >= 4 /\ General(v)
Planar == ok => DiagramOK(ProjDiagram(v))
Directions == (ok /\ Cardinality(XPairs(v)) <= MaxN) =>
  LET w == Tilt(v, 3, 2, -1) IN
  (General(w) /\ Cardinality(XPairs(w)) <= MaxN) => CurveHomfly(v) = CurveHomfly(w)
=============================================================================
