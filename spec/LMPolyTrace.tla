----------------------------- MODULE LMPolyTrace -----------------------------
EXTENDS LMPoly, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Is(p) == IF p THEN TRUE ELSE FALSE
Set(s) == {s[i] : i \in 1..Len(s)}
(* terms of the log: powers, sign, digits of the absolute value, digits with sign, value modulo q *)
Canonical(s, p) == /\ Len(s) = Cardinality(p) /\ Set(s) = p
                   /\ \A i \in 1..(Len(s) - 1) : Before(s[i], s[i + 1])
Small(s) == \A i \in 1..Len(s) : s[i].c \in (-10000)..10000
Bare(s) == {[l |-> s[i].l, m |-> s[i].m, c |-> s[i].c] : i \in 1..Len(s)}
Res(s) == {[l |-> s[i].l, m |-> s[i].m, c |-> s[i].r] : i \in {i \in 1..Len(s) : s[i].r # 0}}
Forms(ev) ==
  LET p == TLCEval(Set(ev.a))  o == TLCEval(Sorted(p))  t == TLCEval(LmText(p, 0, 0, 0, 0)) IN
  /\ Len(ev.a) = Cardinality(p) /\ ev.a # <<>>                   \* the script's polynomial is one
  /\ "changed" \notin DOMAIN ev /\ "kept" \notin DOMAIN ev
  /\ Set(ev.after) = p /\ Len(ev.after) = Len(ev.a)
  /\ ev.lm = t /\ Canonical(ev.back, p) /\ ev.again = t
  /\ ev.latex = Latex(ev.a) /\ ev.math = Mathematica(ev.a)
  /\ ev.lmlatex = Latex(o) /\ ev.lmmath = Mathematica(o)
  /\ ev.kt = KnotTheory(ev.a) /\ Canonical(ev.ktback, p)
Text(ev) == LET p == TLCEval(Set(ev.a)) IN
  /\ Len(ev.a) = Cardinality(p)
  /\ ev.text = LmText(p, ev.pad[1], ev.pad[2], ev.pad[3], ev.pad[4])
  /\ Canonical(ev.back, p) /\ ev.again = LmText(p, 0, 0, 0, 0) /\ ev.latex = Latex(Sorted(p))
Prod(ev) ==
  LET a == TLCEval(Set(ev.a))  b == TLCEval(Set(ev.b)) IN
  /\ Set(ev.aafter) = a /\ Set(ev.bafter) = b /\ Len(ev.aafter) = Len(ev.a) /\ Len(ev.bafter) = Len(ev.b)
  /\ \A i \in 1..(Len(ev.p) - 1) : Before(ev.p[i], ev.p[i + 1])
  /\ \A i \in 1..Len(ev.p) : ev.p[i].s # "0"
  /\ IF Small(ev.a) /\ Small(ev.b) THEN Bare(ev.p) = Product(Bare(ev.a), Bare(ev.b), 0)
     ELSE Res(ev.p) = Product(Res(ev.a), Res(ev.b), ev.q)
  /\ (ev.eqab = 1) = (a = b) /\ (ev.eqba = 1) = (a = b)
Step(ev) == CASE ev.op = "forms" -> Forms(ev)
              [] ev.op = "text" -> Text(ev)
              [] ev.op = "prod" -> Prod(ev)
              [] ev.op = "reset" -> TRUE
Init == l = 1
Next == l <= Len(Trace) /\ Is(Step(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
