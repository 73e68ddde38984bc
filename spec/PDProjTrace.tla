---------------------------- MODULE PDProjTrace ----------------------------
(* Curves turned into diagrams, polynomials and knot types.

   `last` is the curve most recently converted (ev.v) with its polynomial; a report on the curve
   itself (homfly, classify) is judged against it.                                            *)
EXTENDS PDClass, PDProj
VARIABLE last

MaxSkein == 11
\* the polynomial of the curve, from this or a nearby direction; <<>> if none is small enough
\* (directions chosen so that TLC's 32-bit integers suffice: unit-edge curves allow finer tilts)
UnitEdges(v) == \A e \in Edges(v) : LET a == Ta(v, e) b == Hb(v, e) IN
                  (b[1]-a[1])*(b[1]-a[1]) + (b[2]-a[2])*(b[2]-a[2]) + (b[3]-a[3])*(b[3]-a[3]) = 1
Dirs(v) == IF UnitEdges(v) THEN << <<12, 1, 2>>, <<12, -1, 3>>, <<12, 2, -3>>, <<12, -3, -1>>, <<12, 3, 1>>, <<12, 5, 7>>, <<13, -5, 3>> >>
           ELSE << <<1, 0, 0>>, <<2, 1, -1>>, <<3, 1, 2>>, <<3, -1, 1>>, <<3, 2, -1>>, <<3, -2, -2>> >>
Usable(v, d) == LET w == Tilt(v, d[1], d[2], d[3]) IN General(w) /\ Cardinality(XPairs(w)) <= MaxSkein
PolyOfCurve(v) ==
  LET D == TLCEval(Dirs(v))
      U == TLCEval({i \in 1..Len(D) : Usable(v, D[i])})
  IN IF U = {} THEN <<>> ELSE LET d == D[CHOOSE k \in U : TRUE] IN CurveHomfly(Tilt(v, d[1], d[2], d[3]))

Curve(ev) ==
  LET v == ev.v
      o == ev.out[1]
      gen == General(v) /\ NoCollinear(v)
      poly == TLCEval(PolyOfCurve(v))
  IN /\ ev.same = 1 /\ PdOK(o) /\ Len(o.c) = Len(v) /\ SignedD(Abs(o))
     /\ IF gen /\ XPairs(v) # {}
        THEN SameUpToTags(Abs(o), ProjDiagram(v))
        ELSE (poly # <<>> /\ o.n <= MaxSkein) => Homfly(Abs(o)) = poly
     /\ (gen /\ XPairs(v) = {}) => o.n <= 1
     /\ regs' = [i \in DOMAIN regs \cup {ev.r} |-> IF i = ev.r THEN o ELSE regs[i]]
     /\ last' = [v |-> v, p |-> poly]
     /\ UNCHANGED val
\* a curve with many crossings (in general position by construction): how many, of which sign, on which component
BigCurve(ev) ==
  LET v == ev.v  X == TLCEval(XPairs(v))  n == Cardinality(X)  pos == Cardinality({p \in X : XSign(v, p) = 1})
      On(i) == Cardinality({p \in X : p[1][1] = i}) + Cardinality({p \in X : p[2][1] = i})
  IN /\ ev.same = 1 /\ ev.ok = 1
     /\ ev.n = <<n, 2 * n, n + 2, Len(v)>> /\ ev.sg = <<pos, n - pos>>
     /\ LET on == TLCEval([i \in 1..Len(v) |-> On(i)]) IN \A k \in {on[i] : i \in 1..Len(v)} : Cardinality({i \in 1..Len(v) : on[i] = k}) = Cardinality({i \in 1..Len(ev.ce) : ev.ce[i] = k})
     /\ UNCHANGED <<regs, val, last>>
CurvePoly(ev) ==
  /\ ev.same = 1 /\ ev.ok = 1 /\ Canonical(ev.poly) /\ UNCHANGED <<regs, val, last>>
  /\ last.p # <<>> => AsPoly(ev.poly) = last.p
CurveClass(ev) ==
  /\ ev.same = 1 /\ UNCHANGED <<regs, val, last>>
  /\ ev.np >= 0 /\ (ev.null = 1 <=> ev.np = 0)
  /\ last.p # <<>> => \A i \in 1..ev.np : AsPoly(ev.kt[i].p) = last.p
  \* what the curve is known to be
  /\ ev.k # <<-1, -1>> => (IF ev.k = <<0, 1>> THEN <<>> ELSE <<ev.k>>) \in Rows(ev)

TStep(ev) ==
  CASE ev.op = "curve"     -> Curve(ev) /\ UNCHANGED <<nm, cls>>
    [] ev.op = "bigcurve"  -> BigCurve(ev) /\ UNCHANGED <<nm, cls>>
    [] ev.op = "chomfly"   -> CurvePoly(ev) /\ UNCHANGED <<nm, cls>>
    [] ev.op = "cclassify" -> CurveClass(ev) /\ UNCHANGED <<nm, cls>>
    [] OTHER               -> CStep(ev) /\ last' = IF ev.op = "reset" THEN [v |-> <<>>, p |-> <<>>] ELSE last
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ TStep(Trace[l])
TInit == CInit /\ last = [v |-> <<>>, p |-> <<>>]
TSpec == TInit /\ [][TNext]_<<regs, l, val, nm, cls, last>>
=============================================================================
