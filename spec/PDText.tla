------------------------------- MODULE PDText -------------------------------
(* External representations of a diagram: the library's text format, the KnotTheory format and
   the packed form.  Each is a function of the diagram object plus a reading relation.        *)
EXTENDS PDIso

Str(i) == ToString(i)

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* ---- the library's own format: lines of tokens ---- *)
SignTok(s) == IF s = 2 THEN <<>> ELSE IF s = 1 THEN <<"+">> ELSE <<"-">>
HeaderLine(pd) == <<"pd", pd.h, Str(pd.u)>>
\* everything after the header line.  tagtok(t) is how the reader of the trace saw the tag character
BodyLines(pd) ==
  << <<"nv", Str(pd.n)>> >>
  \o [i \in 1..pd.n |-> [p \in 1..4 |-> Str(pd.x[i][p])] \o SignTok(pd.x[i][5])]
  \o << <<"ne", Str(Len(pd.e))>> >>
  \o [k \in 1..Len(pd.e) |-> <<Str(pd.e[k][3]) \o "," \o Str(pd.e[k][4]), "->", Str(pd.e[k][1]) \o "," \o Str(pd.e[k][2])>>]
  \o << <<"nc", Str(Len(pd.c))>> >>
  \o [i \in 1..Len(pd.c) |-> <<Str(Len(pd.c[i].e)), ":">> \o [j \in 1..Len(pd.c[i].e) |-> Str(pd.c[i].e[j])] \o <<"tag">>]
  \o << <<"nf", Str(Len(pd.f))>> >>
  \o [i \in 1..Len(pd.f) |-> <<Str(Len(pd.f[i])), ":">> \o
        [j \in 1..2*Len(pd.f[i]) |-> LET s == pd.f[i][(j + 1) \div 2] IN
           IF j % 2 = 1 THEN (IF s[2] = 1 THEN "+" ELSE "-") ELSE Str(s[1])]]

NonEmpty(lines) == SelectSeq(lines, LAMBDA ln : ln # <<>>)
\* the text, compared as tokens; the tag character itself is compared through reading back
StripTag(ln) == IF Len(ln) >= 2 /\ ln[Len(ln)-1] = "tag" THEN SubSeq(ln, 1, Len(ln)-1) ELSE ln
LineOK(got, want) ==
  LET g == StripTag(got) IN
  IF Len(want) = 3 /\ want[1] = "pd"
  THEN Len(g) = 3 /\ g[1] = "pd" /\ g[2] = want[2] /\ (want[3] = "-1" \/ g[3] = want[3])
  ELSE g = want

WholeText(pds) == Cat([i \in 1..Len(pds) |-> <<HeaderLine(pds[i])>> \o BodyLines(pds[i])])

\* a crossingless circle keeps its tag; its number and hash are not part of what the format keeps
SameRead(pd, o) == IF pd.n = 0 THEN PdOK(o) /\ o.c = pd.c ELSE o = pd

Txt(srcs, text, outs) ==
  LET pds == [i \in 1..Len(srcs) |-> regs[srcs[i]]]
      got == NonEmpty(text)
      want == WholeText(pds)
  IN /\ Len(outs) = Len(srcs)
     /\ (\A i \in 1..Len(pds) : pds[i].n > 0) =>
           /\ Len(got) = Len(want)
           /\ \A i \in 1..Len(want) : LineOK(got[i], want[i])
     /\ \A i \in 1..Len(outs) : SameRead(pds[i], outs[i])
     /\ regs' = regs

\* a = <<no header, no tags, no signs, wide layout, crossing records permuted>>
RVar(s, a, o) ==
  LET pd == regs[s]
      want == [pd EXCEPT !.u = IF a[1] = 1 THEN -1 ELSE pd.u,
                         !.c = IF a[2] = 1 THEN [i \in 1..Len(pd.c) |-> [t |-> 64 + i, e |-> pd.c[i].e]] ELSE pd.c,
                         !.x = IF a[3] = 1 THEN [i \in 1..pd.n |-> [pd.x[i] EXCEPT ![5] = 2]] ELSE pd.x]
  IN /\ PdOK(o)
     /\ IF pd.n > 0 THEN o = want ELSE o.c[1].t = want.c[1].t
     /\ regs' = regs

\* whatever text is read: a refusal (nothing, or nothing usable plus an error code), or a well-formed diagram
ReadAny(witherr, err, o) ==
  /\ \/ o.n = -1 /\ (witherr = 1 => err # 0)
     \/ o.n = -2 /\ witherr = 1 /\ err # 0
     \/ o.n >= 0 /\ err = 0 /\ PdShapeOK(o)
  /\ regs' = regs

(* ---- KnotTheory: PD[X[i,j,k,l],...], 1-based edges counterclockwise from the incoming under edge ---- *)
UnderInPos(pd, c) == Opp(UnderOut(Abs(pd), c)) % 4
KTNums(pd) == Cat([i \in 1..pd.n |-> LET p == UnderInPos(pd, i-1)
                                      IN [j \in 1..4 |-> pd.x[i][((p + j - 1) % 4) + 1] + 1]])
RECURSIVE RepStr(_,_)
RepStr(s, k) == IF k = 0 THEN "" ELSE s \o RepStr(s, k - 1)
KTMask(n) == "PD[" \o RepStr("X[#,#,#,#],", n - 1) \o "X[#,#,#,#]]"

\* components whose direction the format does not determine: two edges, over at both crossings
OnlyOver2(pd, i) == LET E == pd.c[i].e
                        D == Abs(pd)
                    IN Len(E) = 2 /\ \A j \in 1..2 : IsOver(D, TailDart(pd, E[j])) /\ IsOver(D, HeadDart(pd, E[j]))

\* reverse the components whose tags are in T (crossings between a reversed and a kept strand change sign)
RECURSIVE ReorientAll(_,_)
ReorientAll(D, T) == IF T = {} THEN D ELSE LET t == CHOOSE t \in T : TRUE IN ReorientAll(ReorientComp(D, t), T \ {t})

KT(s, nums, mask, o) ==
  LET pd == regs[s]
      free == {pd.c[i].t : i \in {i \in 1..Len(pd.c) : OnlyOver2(pd, i)}}
  IN /\ nums = KTNums(pd)
     /\ mask = KTMask(pd.n)
     /\ PdOK(o)
     /\ \E T \in SUBSET free : SameUpToTags(ReorientAll(A(s), T), Abs(o))
     /\ regs' = regs

(* ---- packed form: structure, directions and signs; tags, uid and hash are re-issued ---- *)
RECURSIVE Log2Up(_)
Log2Up(m) == IF m <= 1 THEN 0 ELSE 1 + Log2Up((m + 1) \div 2)
PackWords(n, signed) == 1 + ((n * (4 + 4 * Log2Up(2 * n) + (IF signed THEN 1 ELSE 0)) + 31) \div 32)
Pack(s, len, o) ==
  /\ PdOK(o) /\ LongestFirst(o)
  /\ IF AllUnset(A(s)) THEN AllUnset(Abs(o)) /\ SameShadow(A(s), Abs(o)) ELSE SameUpToTags(A(s), Abs(o))
  /\ len <= PackWords(regs[s].n, ~AllUnset(A(s)))
  /\ o.h = regs[s].h
  /\ regs' = regs
=============================================================================
