------------------------------ MODULE CstHist ------------------------------
(* Design-level model of the constraints on a curve, and generator of call histories.

   Two descriptions run side by side: want, a function from vertices to constraints (what the
   user asked for), and runs, the ordered list of runs of vertices sharing a constraint (what
   the library keeps).  The invariants say that the list always denotes the function, stays
   ordered and disjoint, and that components added or dropped take their own constraints along.
   A history is a sequence of <<name, c, v, n, k, x>>.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes0,        \* number of vertices of each component at the start
          Kinds,         \* set of <<k, x>>: kind (1 fixed, 2 line, 3 plane) and which one of it
          Names,         \* the calls used
          Len0, MaxC

VARIABLES sizes, want, runs, hist, done
vars == <<sizes, want, runs, hist, done>>

NC == Len(sizes)
None == <<0, 0>>
Blank(n) == [i \in 1..n |-> None]
Init == sizes = Sizes0 /\ want = [c \in 1..Len(Sizes0) |-> Blank(Sizes0[c])] /\ runs = <<>> /\ hist = <<>> /\ done = FALSE

(* ---- the list of runs [c, v, n, f] ---- *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Piece(q, a, b) == IF b < a THEN <<>> ELSE <<[q EXCEPT !.v = a, !.n = b - a + 1]>>
\* what is left of a run when vertices v..v+n-1 of component c are taken out
Cut(q, c, v, n) == IF q.c # c \/ q.v + q.n <= v \/ v + n <= q.v THEN <<q>>
                   ELSE Piece(q, q.v, v - 1) \o Piece(q, v + n, q.v + q.n - 1)
CutAll(L, c, v, n) == Flat([i \in 1..Len(L) |-> Cut(L[i], c, v, n)])
Before(q, c, v) == q.c < c \/ (q.c = c /\ q.v < v)
Put(L, r) == SelectSeq(L, LAMBDA q : Before(q, r.c, r.v)) \o <<r>> \o SelectSeq(L, LAMBDA q : ~Before(q, r.c, r.v))
SetRun(L, c, v, n, f) == LET K == CutAll(L, c, v, n) IN IF f = None THEN K ELSE Put(K, [c |-> c, v |-> v, n |-> n, f |-> f])

Log(w) == Len(hist) < Len0 /\ ~done /\ hist' = Append(hist, w) /\ UNCHANGED done
Set(c, v, n, f) ==
  /\ want' = [want EXCEPT ![c] = [i \in 1..Len(@) |-> IF i \in v..(v+n-1) THEN f ELSE @[i]]]
  /\ runs' = SetRun(runs, c, v, n, f) /\ UNCHANGED sizes
Spots == {s \in (1..NC) \X (1..4) \X (1..4) : s[2] + s[3] - 1 <= sizes[s[1]]}
Constrain == \E s \in Spots, f \in Kinds :
  /\ (f[1] = 1 => s[3] = 1)
  /\ Log(<<"set", s[1] - 1, s[2] - 1, s[3], f[1], f[2]>>) /\ Set(s[1], s[2], s[3], f)
Release == \E s \in Spots : Log(<<"uncst", s[1] - 1, s[2] - 1, s[3], 0, 0>>) /\ Set(s[1], s[2], s[3], None)
Remove == \E f \in Kinds :
  /\ Log(<<"rmcst", 0, 0, 0, f[1], f[2]>>)
  /\ want' = [c \in 1..NC |-> [i \in 1..sizes[c] |-> IF want[c][i] = f THEN None ELSE want[c][i]]]
  /\ runs' = SelectSeq(runs, LAMBDA q : q.f # f) /\ UNCHANGED sizes
Clear == /\ Log(<<"rmall", 0, 0, 0, 0, 0>>)
         /\ want' = [c \in 1..NC |-> Blank(sizes[c])] /\ runs' = <<>> /\ UNCHANGED sizes
Splice(s, at, x) == SubSeq(s, 1, at) \o x \o SubSeq(s, at + 1, Len(s))
Unsplice(s, c) == SubSeq(s, 1, c - 1) \o SubSeq(s, c + 1, Len(s))
AddCp == /\ NC < MaxC
         /\ \E at \in 0..NC, n \in 1..3 :
              /\ Log(<<"addcp", at, n, 0, 0, 0>>)
              /\ sizes' = Splice(sizes, at, <<n>>) /\ want' = Splice(want, at, <<Blank(n)>>)
              /\ runs' = [i \in 1..Len(runs) |-> IF runs[i].c > at THEN [runs[i] EXCEPT !.c = @ + 1] ELSE runs[i]]
DropCp == /\ NC > 1
          /\ \E c \in 1..NC :
               /\ Log(<<"dropcp", c - 1, 0, 0, 0, 0>>)
               /\ sizes' = Unsplice(sizes, c) /\ want' = Unsplice(want, c)
               /\ runs' = LET K == SelectSeq(runs, LAMBDA q : q.c # c) IN
                          [i \in 1..Len(K) |-> IF K[i].c > c THEN [K[i] EXCEPT !.c = @ - 1] ELSE K[i]]
Copy == Log(<<"copy", 0, 0, 0, 0, 0>>) /\ UNCHANGED <<sizes, want, runs>>
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<sizes, want, runs, hist>>
Next == \/ ("set" \in Names /\ Constrain) \/ ("uncst" \in Names /\ Release) \/ ("rmcst" \in Names /\ Remove) \/ ("rmall" \in Names /\ Clear)
        \/ ("addcp" \in Names /\ AddCp) \/ ("dropcp" \in Names /\ DropCp) \/ ("copy" \in Names /\ Copy) \/ Finish
Spec == Init /\ [][Next]_vars

\* the list denotes the function
Denotes == \A c \in 1..NC : \A v \in 1..sizes[c] :
             LET I == {i \in 1..Len(runs) : runs[i].c = c /\ v \in runs[i].v..(runs[i].v + runs[i].n - 1)} IN
             IF want[c][v] = None THEN I = {} ELSE \E i \in 1..Len(runs) : I = {i} /\ runs[i].f = want[c][v]
Inside == \A i \in 1..Len(runs) : runs[i].c \in 1..NC /\ runs[i].n >= 1 /\ runs[i].v >= 1 /\ runs[i].v + runs[i].n - 1 <= sizes[runs[i].c]
Ordered == \A i \in 1..(Len(runs)-1) : Before(runs[i], runs[i+1].c, runs[i+1].v)
Emit == done => PrintT("HIST " \o ToJson(hist))
=============================================================================
