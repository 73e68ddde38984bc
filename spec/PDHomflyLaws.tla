--------------------------- MODULE PDHomflyLaws ----------------------------
(* Traces of diagram operations interleaved with HOMFLY computations.

   `val` remembers, per register, the polynomial that the library reported for that register's
   diagram.  A report is judged against the definition ("def"), or, on diagrams too large for the
   skein recursion, against the laws that follow from it: invariance under moves, renumbering and
   reversal of the whole link; l -> 1/l for the mirror image; products for connected sums.       *)
EXTENDS PDTrace, PDHomfly

VARIABLE val
HInit == Init /\ val = <<>>

Law(ev, p) ==
  CASE ev.rel = "def"    -> p = Homfly(A(ev.s[1]))
    [] ev.rel = "free"   -> TRUE
    \* the diagram of register a1 was changed by link isotopies since (unless a component split off)
    [] ev.rel = "same"   -> val[ev.a[1]].k = Len(regs[ev.s[1]].c) => p = val[ev.a[1]].p
    [] ev.rel = "mirror" -> p = MirrorP(val[ev.a[1]].p)
    [] ev.rel = "prod"   -> p = PMul(val[ev.a[1]].p, val[ev.a[2]].p)
    [] OTHER             -> FALSE

\* the user flips every crossing sign of a copy
MirrorCopy(r, s, o) == Has(s) /\ o = [regs[s] EXCEPT !.x = [i \in 1..Len(@) |-> [@[i] EXCEPT ![5] = Flip(@)]]] /\ Set(r, o)

(* ---- large diagrams: the skein relation itself, between three reports, coefficients modulo a prime ---- *)
QMod == 30011
MPoly(q) == [i \in {<<q.p[j][2], q.p[j][3]>> : j \in 1..Len(q.p)} |-> q.p[CHOOSE j \in 1..Len(q.p) : <<q.p[j][2], q.p[j][3]>> = i][1]]
MOrder(q) == q.ok = 1 /\ \A i \in 1..(Len(q.p)-1) : q.p[i][2] < q.p[i+1][2] \/ (q.p[i][2] = q.p[i+1][2] /\ q.p[i][3] < q.p[i+1][3])
MNorm(f) == LET g == [e \in DOMAIN f |-> f[e] % QMod]  S == {e \in DOMAIN g : g[e] # 0} IN TLCEval([e \in S |-> g[e]])
MAdd(p, q) == MNorm([e \in DOMAIN p \cup DOMAIN q |-> PCoef(p, e) + PCoef(q, e)])
MMul(p, q) ==
  LET RECURSIVE Acc(_)
      Acc(S) == IF S = {} THEN PZero ELSE LET e == CHOOSE x \in S : TRUE IN MAdd(PShift(q, p[e], e[1], e[2]), Acc(S \ {e}))
  IN Acc(DOMAIN p)
RECURSIVE MPow(_, _)
MPow(p, k) == IF k = 0 THEN PMono(1, 0, 0) ELSE IF k % 2 = 1 THEN MMul(p, MPow(p, k - 1)) ELSE LET h == MPow(p, k \div 2) IN MMul(h, h)
\* link data with the numbers of the crossings after c moved down by one
Closed(W, c) ==
  LET dn(v) == IF v > 2 * c THEN v - 2 ELSE v   up(v) == IF v >= 2 * c THEN v + 2 ELSE v  S == {dn(v) : v \in Live(W)} IN
  [nx |-> [v \in S |-> dn(W.nx[up(v)])], sg |-> [k \in 0..(Cardinality(DOMAIN W.sg) - 2) |-> W.sg[IF k >= c THEN k + 1 ELSE k]], loops |-> W.loops]
SkeinOK(ev) ==
  LET D == FromDarts(ev.in)  W == TLCEval(LinkData(D))
      a == MPoly(ev.a)  b == MPoly(ev.b)  z == MPoly(ev.z)
      pos == IF W.sg[ev.c] = 1 THEN a ELSE b   neg == IF W.sg[ev.c] = 1 THEN b ELSE a
  IN /\ MOrder(ev.a) /\ MOrder(ev.b) /\ MOrder(ev.z)
     /\ LinkData(FromDarts(ev.in0)) = Closed(Smooth(W, ev.c), ev.c)
     /\ MAdd(MAdd(PShift(pos, 1, 1, 0), PShift(neg, 1, -1, 0)), PShift(z, 1, 0, 1)) = PZero
PowerOK(ev) == /\ ev.n = ev.k * regs[ev.s[1]].n /\ MOrder(ev.p) /\ MOrder(ev.q)
               /\ MNorm(MPoly(ev.q)) = MPow(MNorm(MPoly(ev.p)), ev.k)

HStep(ev) ==
  CASE ev.op = "homfly" ->
         /\ ev.same = 1 /\ ev.ok = 1 /\ Canonical(ev.poly) /\ UNCHANGED regs
         /\ Has(ev.s[1]) /\ SignedD(A(ev.s[1]))
         /\ LET p == AsPoly(ev.poly) IN
            /\ val' = [i \in DOMAIN val \cup {ev.s[1]} |->
                        IF i = ev.s[1] THEN [p |-> p, k |-> Len(regs[i].c)] ELSE val[i]]
            /\ IF Law(ev, p) THEN TRUE ELSE FALSE
    [] ev.op = "skein" -> (IF SkeinOK(ev) THEN TRUE ELSE FALSE) /\ UNCHANGED <<regs, val>>
    [] ev.op = "power" -> (IF PowerOK(ev) THEN TRUE ELSE FALSE) /\ UNCHANGED <<regs, val>>
    [] ev.op = "mirror" -> MirrorCopy(ev.r, ev.s[1], ev.out[1]) /\ UNCHANGED val
    [] OTHER -> Step(ev) /\ val' = IF ev.op = "reset" THEN <<>> ELSE val

HNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ HStep(Trace[l])
=============================================================================
