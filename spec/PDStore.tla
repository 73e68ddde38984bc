------------------------------- MODULE PDStore -------------------------------
(* Collections of diagrams (pdstors) as a state machine on top of PDTrace.

   A store is a sequence of elements [h, u, o]: the hash and number under which the diagram is
   kept, and the diagram as it comes out of storage.  (hash, number) identifies an element.

   eq: 0 keep everything, 1 up to isomorphism, 2 up to diagram isotopy.                      *)
EXTENDS PDTrace

VARIABLE stores
svars == <<regs, l, stores>>

Elt(o) == [h |-> o.h, u |-> o.u, o |-> o]
SetStore(i, s) == stores' = [k \in DOMAIN stores \cup {i} |-> IF k = i THEN s ELSE stores[k]]
Elts(s) == {s[k] : k \in 1..Len(s)}
Hashes(s) == {s[k].h : k \in 1..Len(s)}

\* the invariant of a store: what the two-level index means
StoreOK(s) == \A j, k \in 1..Len(s) : j # k => <<s[j].h, s[j].u>> # <<s[k].h, s[k].u>>

Counts(s, ev) == ev.nelts = Len(s) /\ ev.st = <<Len(s), Cardinality(Hashes(s))>>
Listing(s, list) == Len(list) = Len(s) /\ {Elt(list[k]) : k \in 1..Len(list)} = Elts(s)

\* necessary for any equivalence (faces are listed by decreasing length); saves searching
Alike(a, b) == a.n = b.n /\ Len(a.f) = Len(b.f) /\ \A i \in 1..Len(a.f) : Len(a.f[i]) = Len(b.f[i])
Equivalent(eq, X, Y) == IF eq = 1 THEN Isomorphic(X, Y) ELSE IF eq = 2 THEN DiagramIsotopic(X, Y) ELSE FALSE
\* what packing keeps
SameStored(X, Y) == IF AllUnset(X) THEN AllUnset(Y) /\ SameShadow(X, Y) ELSE SameUpToTags(X, Y)

SAdd(ev) ==
  LET s == stores[ev.i]
      X == A(ev.r)
      match == TLCEval({k \in 1..Len(s) : Alike(s[k].o, regs[ev.r]) /\ Equivalent(ev.eq, Abs(s[k].o), X)})
      after == [regs[ev.r] EXCEPT !.u = ev.out[1].u]
  IN /\ ev.out[1] = after
     /\ Len(ev.elt) = 1
     /\ IF match # {}
        THEN /\ (IF \E k \in match : s[k].h = after.h /\ s[k].u = after.u /\ ev.elt[1] = s[k].o THEN TRUE ELSE FALSE)
             /\ Counts(s, ev) /\ UNCHANGED stores
        ELSE /\ PdOK(ev.elt[1]) /\ ev.elt[1].h = after.h /\ ev.elt[1].u = after.u
             /\ SameStored(X, Abs(ev.elt[1]))
             /\ LET t == Append(s, Elt(ev.elt[1])) IN StoreOK(t) /\ Counts(t, ev) /\ SetStore(ev.i, t)
     /\ Set(ev.r, after)

SFind(ev) ==
  LET s == stores[ev.i]
      X == A(ev.s[1])
      match == TLCEval({k \in 1..Len(s) : Alike(s[k].o, regs[ev.s[1]]) /\ Isomorphic(X, Abs(s[k].o))})
  IN IF match = {} THEN ev.out[1].n = -1 /\ ev.n = 0
     ELSE /\ \E k \in match : ev.out[1] = s[k].o
          /\ ev.n > 0
          /\ X.n > 0 => IsosOK(regs[ev.s[1]], ev.out[1], 0, ev.isos)

\* reading back: `all` lists the elements that went into the file
ReadBack0(all, eq, ev) ==
  LET L == ev.list
      D == TLCEval([k \in 1..Len(L) |-> Abs(L[k])])
      E == TLCEval([k \in 1..Len(all) |-> Abs(all[k].o)])
      Al(j, k) == Alike(L[j], all[k].o)
      new == [k \in 1..Len(L) |-> Elt(L[k])]
  IN /\ ev.null = 0
     /\ \A k \in 1..Len(L) : PdOK(L[k])
     /\ StoreOK(new) /\ Counts(new, ev)
     /\ \A k \in 1..Len(all) : IF eq = 1 THEN Cardinality({j \in 1..Len(L) : Al(j, k) /\ Isomorphic(E[k], D[j])}) = 1
                               ELSE IF eq = 0 THEN \E j \in 1..Len(L) : L[j].h = all[k].h /\ Al(j, k) /\ SameStored(E[k], D[j])
                               \* the class survives; its tags may have been re-issued
                               ELSE \E j \in 1..Len(L) : L[j].h = all[k].h /\ Al(j, k) /\ MapEq(E[k], D[j], {1,-1}, ~AllUnset(E[k]), TRUE, FALSE)
     /\ \A j \in 1..Len(L) : \E k \in 1..Len(all) : L[j].h = all[k].h /\ Al(j, k) /\ SameStored(E[k], D[j])
     /\ eq = 0 => /\ Len(L) = Len(all)
                  /\ \A k \in 1..Len(all) : Cardinality({j \in 1..Len(L) : Al(j, k) /\ SameStored(E[k], D[j])}) = Cardinality({j \in 1..Len(all) : Alike(all[j].o, all[k].o) /\ SameStored(E[k], E[j])})
     /\ eq = 2 => \A j, k \in 1..Len(L) : (j < k /\ Alike(L[j], L[k])) => ~DiagramIsotopic(D[j], D[k])
\* as an expression, not as an action: no branching on witnesses
Is(p) == IF p THEN TRUE ELSE FALSE
ReadBack(all, eq, ev) == Is(ReadBack0(all, eq, ev))
Keep2(j, ev) == IF j < 0 THEN UNCHANGED stores
                ELSE IF ev.null = 1 THEN stores' = [k \in DOMAIN stores \ {j} |-> stores[k]]
                ELSE SetStore(j, [k \in 1..Len(ev.list) |-> Elt(ev.list[k])])

RECURSIVE Concat(_,_)
Concat(ids, k) == IF k > Len(ids) THEN <<>> ELSE stores[ids[k]] \o Concat(ids, k + 1)
RECURSIVE SumHashes(_,_)
SumHashes(ids, k) == IF k > Len(ids) THEN 0 ELSE Cardinality(Hashes(stores[ids[k]])) + SumHashes(ids, k + 1)

\* the display: two header lines, then one line per hash with the range of its numbers
Display(s, text) ==
  LET rows == {text[k] : k \in 3..Len(text)}
      Us(h) == {s[k].u : k \in {j \in 1..Len(s) : s[j].h = h}}
      Lo(h) == CHOOSE u \in Us(h) : \A v \in Us(h) : u <= v
      Hi(h) == CHOOSE u \in Us(h) : \A v \in Us(h) : v <= u
  IN /\ Len(text) = 2 + Cardinality(Hashes(s))
     /\ rows = {<<"hash", h, "uids", ToString(Lo(h)) \o "-" \o ToString(Hi(h))>> : h \in Hashes(s)}

\* a store file is a header naming its number of elements, then that many diagrams
Refused(ev) == ev.null = 1
WellFormedOrRefused(ev) == ev.null = 1 \/ ((\A k \in 1..Len(ev.list) : PdOK(ev.list[k])) /\ Counts([k \in 1..Len(ev.list) |-> Elt(ev.list[k])], ev))

StoreOps == {"snew", "sfree", "sadd", "slist", "sfind", "sdisp", "srt", "sinc", "shdr", "scut", "hash", "rehash"}

(* ------------------------------ hashes ------------------------------ *)
FaceLens(pd) == [i \in 1..Len(pd.f) |-> Len(pd.f[i])]
CompLens(pd) == [i \in 1..Len(pd.c) |-> Len(pd.c[i].e)]
Count(seq, v) == Cardinality({i \in 1..Len(seq) : seq[i] = v})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
\* small diagrams: crossing number, face and component lengths all fit into the hash
Hash(a, b) ==
  /\ Isomorphic(Abs(a), Abs(b)) => a.h = b.h
  /\ (a.n # b.n /\ a.n < 256 /\ b.n < 256) => a.h # b.h
  /\ (a.n = b.n /\ a.n <= 12 /\ ~SameBag(FaceLens(a), FaceLens(b))) => a.h # b.h
  /\ (a.n = b.n /\ a.n <= 12 /\ Len(a.c) <= 5 /\ Len(b.c) <= 5 /\ ~SameBag(CompLens(a), CompLens(b))) => a.h # b.h

Step2(ev) ==
  CASE ev.op = "snew"  -> SetStore(ev.i, <<>>) /\ Counts(<<>>, ev) /\ ev.list = <<>> /\ UNCHANGED regs
    [] ev.op = "sfree" -> ev.null = 1 /\ stores' = [k \in DOMAIN stores \ {ev.i} |-> stores[k]] /\ UNCHANGED regs
    [] ev.op = "sadd"  -> SAdd(ev)
    [] ev.op = "slist" -> Counts(stores[ev.i], ev) /\ Listing(stores[ev.i], ev.list) /\ UNCHANGED <<regs, stores>>
    [] ev.op = "sfind" -> ev.same = 1 /\ Is(SFind(ev)) /\ UNCHANGED <<regs, stores>>
    [] ev.op = "sdisp" -> Display(stores[ev.i], ev.text) /\ UNCHANGED <<regs, stores>>
    [] ev.op = "srt"   -> /\ ev.hdr = <<Len(stores[ev.i]), Len(stores[ev.i]), Cardinality(Hashes(stores[ev.i]))>>
                          /\ ReadBack(stores[ev.i], ev.eq, ev) /\ Keep2(ev.j, ev) /\ UNCHANGED regs
    [] ev.op = "sinc"  -> /\ ev.tot = <<Len(Concat(ev.s, 1)), SumHashes(ev.s, 1)>>
                          /\ IF ev.fin = 1 THEN ReadBack(Concat(ev.s, 1), ev.eq, ev) ELSE Refused(ev)
                          /\ Keep2(ev.j, ev) /\ UNCHANGED regs
    [] ev.op = "shdr"  -> /\ IF ev.kind = "all" THEN ReadBack(stores[ev.i], ev.eq, ev)
                             ELSE IF ev.kind = "no" THEN Refused(ev)
                             ELSE WellFormedOrRefused(ev)
                          /\ UNCHANGED <<regs, stores>>
    [] ev.op = "scut"  -> WellFormedOrRefused(ev) /\ UNCHANGED <<regs, stores>>
    [] ev.op = "hash"  -> Is(Hash(regs[ev.s[1]], regs[ev.s[2]])) /\ UNCHANGED <<regs, stores>>
    [] ev.op = "rehash" -> /\ PdOK(ev.out[1]) /\ regs[ev.s[1]].h = ev.out[1].h
                           /\ SameStored(A(ev.s[1]), Abs(ev.out[1])) /\ UNCHANGED <<regs, stores>>
    [] OTHER -> FALSE

TInit == Init /\ stores = <<>>
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET ev == Trace[l] IN
            IF ev.op \in StoreOps THEN Step2(ev)
            ELSE Step(ev) /\ (IF ev.op = "reset" THEN stores' = <<>> ELSE UNCHANGED stores)
TSpec == TInit /\ [][TNext]_svars
=============================================================================
