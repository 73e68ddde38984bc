------------------------------ MODULE PDClass ------------------------------
(* Knot classification.

   `nm` tracks, per register, what the specification knows about the knot type: the bag of prime
   factors <<crossings, index>> as a sorted sequence (<<>> = unknot), for diagrams that come from a
   constructor family or the knot table and through operations that keep or add knot types.
   `cls` remembers, per polynomial, the answer given the first time: a later diagram with that
   polynomial must get the same answer.                                                        *)
EXTENDS PDHomflyLaws

VARIABLES nm, cls

Unknown == << <<-1, -1>> >>
LexP(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
RECURSIVE Ins(_, _)
Ins(x, s) == IF s = <<>> THEN <<x>> ELSE IF LexP(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o Ins(x, Tail(s))
RECURSIVE Srt(_)
Srt(s) == IF s = <<>> THEN <<>> ELSE Ins(Head(s), Srt(Tail(s)))

\* standard names (Rolfsen's table): closed 2-braids and twist knots
TwistName(n) == CASE n = 1 -> <<3, 1>> [] n = 2 -> <<4, 1>> [] n = 3 -> <<5, 2>> [] n = 4 -> <<6, 1>>
                  [] n = 5 -> <<7, 2>> [] n = 6 -> <<8, 1>> [] n = 7 -> <<9, 2>> [] n = 8 -> <<10, 1>>
FamName(ev) ==
  CASE ev.name = "torus" /\ ev.a[1] = 2 /\ ev.a[2] \in {3, 5, 7, 9} -> << <<ev.a[2], 1>> >>
    [] ev.name = "twist" /\ ev.a[1] \in 1..8 -> << TwistName(ev.a[1]) >>
    [] ev.name = "unknot" -> <<>>
    [] ev.name = "wye" -> <<>>
    [] OTHER -> Unknown
NmOf(r) == IF r \in DOMAIN nm THEN nm[r] ELSE Unknown
Join(a, b) == IF a = Unknown \/ b = Unknown THEN Unknown ELSE Srt(a \o b)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s)[1] + Total(Tail(s))
SetNm(r, v) == nm' = IF r < 0 THEN nm ELSE [i \in DOMAIN nm \cup {r} |-> IF i = r THEN v ELSE nm[i]]

NmStep(ev) ==
  CASE ev.op = "reset"   -> nm' = <<>>
    [] ev.op = "fam"     -> SetNm(ev.r, FamName(ev))
    [] ev.op = "known"   -> SetNm(ev.r, << ev.k >>)
    [] ev.op \in {"copy", "mirror", "simplify", "r1del"} -> SetNm(ev.r, NmOf(ev.s[1]))
    [] ev.op = "consum"  -> SetNm(ev.r, Join(NmOf(ev.s[1]), NmOf(ev.s[2])))
    [] ev.op \in {"regen", "renumber", "reorient", "homfly", "classify", "rkt"} -> nm' = nm
    [] OTHER -> IF ev.r \in DOMAIN nm THEN SetNm(ev.r, Unknown) ELSE nm' = nm

Rows(ev) == {Srt(SelectSeq(ev.kt[i].f, LAMBDA x : x[1] > 0)) : i \in 1..ev.np}
Classify(ev) ==
  LET r == ev.s[1]
      p == val[r].p            \* reported and judged just before, for this very diagram
  IN /\ ev.same = 1 /\ UNCHANGED <<regs, val>>
     /\ Len(regs[r].c) = 1
     /\ ev.np >= 0 /\ (ev.null = 1 <=> ev.np = 0)
     /\ \A i \in 1..ev.np : AsPoly(ev.kt[i].p) = p
     /\ LET want == NmOf(r) IN (want # Unknown /\ Total(want) <= 12) => want \in Rows(ev)
     /\ IF p \in DOMAIN cls THEN cls[p] = Rows(ev) /\ cls' = cls
        ELSE cls' = [x \in DOMAIN cls \cup {p} |-> IF x = p THEN Rows(ev) ELSE cls[x]]

\* number of prime knots with c crossings
NPrime == <<0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458>>
PrimeOK(k) == (k[1] \in 1..19 /\ k[2] >= 1 /\ k[2] <= NPrime[k[1]]) \/ k = <<0, 1>>
\* a knot type typed by a person: factors joined by #, at most ten
ReadType(ev) ==
  /\ UNCHANGED <<regs, val, cls>>
  /\ (ev.form = 1 /\ Len(ev.in) <= 10 /\ \A i \in 1..Len(ev.in) : PrimeOK(ev.in[i])) => (ev.null = 0 /\ ev.f = ev.in)
  /\ (ev.form = 1 /\ (Len(ev.in) > 10 \/ \E i \in 1..Len(ev.in) : ev.in[i][1] < 0 \/ ev.in[i][1] > 19 \/ ev.in[i][2] < 0 \/ (ev.in[i][1] \in 1..19 /\ ev.in[i][2] > NPrime[ev.in[i][1]]))) => ev.null = 1
  /\ (ev.null = 0 /\ Len(ev.f) > 0) => ev.rt = ev.f

CStep(ev) ==
  /\ NmStep(ev)
  /\ CASE ev.op = "classify" -> Classify(ev)
       [] ev.op = "rkt"      -> ReadType(ev)
       [] ev.op = "known"    -> UNCHANGED <<regs, val, cls>>
       [] OTHER              -> HStep(ev) /\ cls' = IF ev.op = "reset" THEN <<>> ELSE cls

CNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ CStep(Trace[l])
CInit == HInit /\ nm = <<>> /\ cls = <<>>
=============================================================================
