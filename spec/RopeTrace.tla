------------------------------ MODULE RopeTrace ------------------------------
EXTENDS Rope, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES L, sts, trn, l          \* the curve, its struts, its radii
Is(p) == IF p THEN TRUE ELSE FALSE
Tol == 2

\* a listed strut is a strut of the curve, with the right place and length
Match(s, q) ==
  LET P(i) == <<s.c[i] + 1, s.v[i]>>
      Spot(e, n, d, x) == LET A == Edg(L, e)  D == Sub(A.b, A.a) IN \A k \in 1..3 : Near(x[k], 1024 * A.a[k] + (1024 * n * D[k]) \div d, Tol)
      Fits(i, j) ==
        /\ P(i) = q.e /\ P(j) = q.f /\ Near(s.len, q.len, Tol)
        /\ \/ q.c.par
           \/ /\ Near(s.s[i], (1024 * q.c.sn) \div q.c.sd, Tol) /\ Near(s.s[j], (1024 * q.c.tn) \div q.c.td, Tol)
              /\ Spot(q.e, q.c.sn, q.c.sd, s.x[i]) /\ Spot(q.f, q.c.tn, q.c.td, s.x[j])
  IN Fits(1, 2) \/ Fits(2, 1)
\* struts cannot be longer than the bound; those clearly shorter are all there unless the list is full
Listed(list, ret, sl, bound, exact) ==
  /\ ret = Len(list) /\ ret <= sl
  /\ \A i \in 1..Len(list) : \E q \in sts : Match(list[i], q) /\ q.len <= bound + Tol
  /\ \A i, j \in 1..Len(list) : i # j => ~({<<list[i].c[1], list[i].v[1]>>, <<list[i].c[2], list[i].v[2]>>} = {<<list[j].c[1], list[j].v[1]>>, <<list[j].c[2], list[j].v[2]>>})
  /\ LET must == {q \in sts : q.k = "yes" /\ q.len < bound - Tol} IN
     IF ret < sl THEN exact => \A q \in must : \E i \in 1..Len(list) : Match(list[i], q) ELSE TRUE
ShortOK(sh, bound) ==          \* the length of the shortest strut not longer than the bound
  LET S == {q \in sts : q.len <= bound + Tol}  lo == MinLen(S)  hi == MinLen({q \in sts : q.k = "yes" /\ q.len < bound - Tol}) IN
  sh >= lo - Tol /\ sh <= hi + Tol /\ (sh = Infinite \/ \E q \in S : Near(q.len, sh, Tol))
StrutsOK(ev) ==
  LET bound == IF ev.cut > 0 THEN ev.cut ELSE IF ev.sh = Infinite THEN Infinite - Tol ELSE ev.sh + ev.eps IN
  /\ ev.err = 0 /\ ev.same = 1
  /\ ShortOK(ev.sh, IF ev.cut > 0 THEN ev.cut ELSE Infinite - Tol)
  /\ IF ev.sl > 0 THEN Listed(ev.list, ev.ret, ev.sl, bound, ev.cut > 0 \/ ev.ret < ev.sl) ELSE ev.ret = 0
RadiiOK(list, ret, sl, bound) ==
  /\ ret = Len(list) /\ ret <= sl
  /\ \A i \in 1..Len(list) : \E q \in trn : q.c = list[i].c /\ q.v = list[i].v /\ q.sv = list[i].sv /\ Near(q.mr, list[i].mr, Tol) /\ q.mr <= bound + Tol
  /\ Cardinality({<<list[i].c, list[i].v, list[i].sv>> : i \in 1..Len(list)}) = Len(list)
  /\ ret < sl => \A q \in trn : q.mr < bound - Tol => \E i \in 1..Len(list) : q.c = list[i].c /\ q.v = list[i].v /\ q.sv = list[i].sv
MinradOK(ev) ==
  LET m == MinMr(trn) IN
  /\ ev.same = 1 /\ Near(ev.mr, m, Tol) /\ Near(ev.val, m, Tol)
  /\ ev.sl > 0 => RadiiOK(ev.list, ev.ret, ev.sl, IF ev.cut > 0 THEN ev.cut ELSE IF m = Infinite THEN m - Tol ELSE m + ev.eps)
Has(w, b) == (w \div b) % 2 = 1
ThickOK(t, lam) ==           \* the smaller of half the shortest strut and minrad/lambda
  LET off == 2 + (IF lam[1] = 0 THEN 0 ELSE (2 * lam[2]) \div lam[1])
      m == IF lam[1] = 0 \/ MinMr(trn) = Infinite THEN Infinite ELSE (MinMr(trn) * lam[2]) \div lam[1]
      lo == MinLen(sts)  hi == MinLen({q \in sts : q.k = "yes"})
  IN IF lo = Infinite THEN IF m = Infinite THEN t = Infinite ELSE Near(t, m, off)
     ELSE t >= Min(m, lo \div 2) - off /\ (hi = Infinite \/ t <= Min(m, hi \div 2) + off)
AllOK(ev) ==
  LET len == 1024 * CurveLen(L)  m == MinMr(trn)
      bound == IF ev.cut > 0 THEN ev.cut ELSE IF ev.poca = Infinite THEN Infinite - Tol ELSE ev.poca + ev.eps IN
  /\ ev.same = 1 /\ ev.clen = len /\ ShortOK(ev.poca, Infinite - Tol)
  /\ ThickOK(ev.th2, ev.lam) /\ (ev.th2 = Infinite \/ ev.th2 = 0 \/ Near(ev.rl2, len, 3))
  /\ Has(ev.w, 1) => (ev.th2 = Infinite \/ ev.th2 = 0 \/ Near(ev.rl, len, 3))
  /\ Has(ev.w, 2) => Near(ev.th, ev.th2, 1)
  /\ Has(ev.w, 4) => ev.len = len
  /\ Has(ev.w, 8) => IF ev.lam[1] = 0 THEN ev.mr = Infinite ELSE Near(ev.mr, m, Tol)
  /\ Has(ev.w, 16) => ev.cut > 0 \/ Near(ev.sh, ev.poca, 1)
  /\ ev.msl > 0 => IF ev.lam[1] = 0 THEN ev.mret = 0 ELSE RadiiOK(ev.mlist, ev.mret, ev.msl, IF ev.mcut > 0 THEN ev.mcut ELSE IF m = Infinite THEN m - Tol ELSE m + ev.meps)
  /\ IF ev.sl > 0 THEN Listed(ev.list, ev.ret, ev.sl, bound, ev.cut > 0 \/ ev.ret < ev.sl) ELSE ev.ret = 0
\* six significant digits are written
Digits(a, b) == Near(a, b, 1 + Abs(a) \div 100000)
FileOK(ev) ==
  /\ ev.e = <<0, 0>> /\ ev.got = ev.n /\ ev.comp = <<0>> /\ Len(ev.list2) = Len(ev.list) /\ Len(ev.mlist2) = Len(ev.mlist) /\ ev.same = 1
  /\ \A i \in 1..Len(ev.list) : LET a == ev.list[i]  b == ev.list2[i] IN
       a.c = b.c /\ a.v = b.v /\ Digits(a.s[1], b.s[1]) /\ Digits(a.s[2], b.s[2]) /\ Digits(a.len, b.len)
  /\ \A i \in 1..Len(ev.mlist) : LET a == ev.mlist[i]  b == ev.mlist2[i] IN a.c = b.c /\ a.v = b.v /\ Digits(a.mr, b.mr)
DamagedOK(ev) ==
  IF ev.err # 0 THEN ev.msg = 1
  ELSE LET Ein(c, v) == c >= 0 /\ c < Len(L) /\ v >= 0 /\ v < Nv(L[c+1]) IN
       /\ ev.n = <<Len(ev.list), Len(ev.mlist)>>
       /\ \A i \in 1..Len(ev.list) : Ein(ev.list[i][1], ev.list[i][2]) /\ Ein(ev.list[i][3], ev.list[i][4])
       /\ \A i \in 1..Len(ev.mlist) : Ein(ev.mlist[i][1], ev.mlist[i][2])

Step(ev) ==
  \/ ev.op = "reset" /\ UNCHANGED <<L, sts, trn>>
  \/ ev.op = "curve" /\ L' = ev.cp /\ sts' = Struts(ev.cp) /\ trn' = IF Integral(ev.cp) THEN Turns(ev.cp) ELSE {}
  \/ ev.op = "struts" /\ Is(StrutsOK(ev)) /\ UNCHANGED <<L, sts, trn>>
  \/ ev.op = "minrad" /\ Is(MinradOK(ev)) /\ UNCHANGED <<L, sts, trn>>
  \/ ev.op = "all" /\ Is(AllOK(ev)) /\ UNCHANGED <<L, sts, trn>>
  \/ ev.op = "file" /\ Is(FileOK(ev)) /\ UNCHANGED <<L, sts, trn>>
  \/ ev.op = "damaged" /\ Is(DamagedOK(ev)) /\ UNCHANGED <<L, sts, trn>>
Init == L = <<>> /\ sts = {} /\ trn = {} /\ l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<L, sts, trn, l>>
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
