------------------------------ MODULE EditHist ------------------------------
(* Generator of histories of structural edits of a curve.  The state is the shape of the curve
   (vertices, openness and colours per component); the guards keep every call within its
   documented domain.  A history is a sequence of <<name, a, b, c, d>>.                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0, MaxC, MaxV, Names
VARIABLES shape, hist, done
vars == <<shape, hist, done>>
NC == Len(shape)
Cmp(n, o, c) == [n |-> n, o |-> IF n < 3 THEN 1 ELSE o, c |-> c]
Shapes == {Cmp(n, o, c) : n \in 1..4, o \in 0..1, c \in 0..1}
Init == /\ \E a \in Shapes, b \in Shapes : shape = <<a, b>>
        /\ hist = <<<<"new", shape[1].n, shape[1].o, shape[1].c * (1 + (shape[1].n - 1) * (shape[2].n % 2)), 0>>,
                    <<"new", shape[2].n, shape[2].o, shape[2].c * (1 + (shape[2].n - 1) * (shape[1].n % 2)), 0>>>>
        /\ done = FALSE
Log(w) == w[1] \in Names /\ Len(hist) < Len0 /\ ~done /\ hist' = Append(hist, w) /\ UNCHANGED done
Splice(at, x) == shape' = SubSeq(shape, 1, at) \o x \o SubSeq(shape, at + 1, NC)
AddCp == NC < MaxC /\ \E at \in 0..NC, n \in 1..MaxV, o \in 0..1, c \in 0..2 :
           Log(<<"addcp", at, n, o, IF c = 2 THEN n ELSE c>>) /\ Splice(at, <<Cmp(n, o, IF c = 0 THEN 0 ELSE 1)>>)
DropCp == NC > 1 /\ \E c \in 1..NC : Log(<<"dropcp", c - 1, 0, 0, 0>>) /\ shape' = SubSeq(shape, 1, c - 1) \o SubSeq(shape, c + 1, NC)
Resize == \E c \in 1..NC, k \in 0..2 : Log(<<"resize", c - 1, IF k = 2 THEN shape[c].n ELSE k, 0, 0>>) /\ UNCHANGED shape
SetClr == \E k \in 0..3 : Log(<<"setclr", k, 0, 0, 0>>) /\ UNCHANGED shape
SetVt == \E c \in 1..NC : \E v \in 1..shape[c].n : Log(<<"setvt", c - 1, v - 1, 0, 0>>) /\ UNCHANGED shape
Wrap == Log(<<"wrap", 0, 0, 0, 0>>) /\ UNCHANGED shape
Nums == Log(<<"nums", 0, 0, 0, 0>>) /\ UNCHANGED shape
Copy == Log(<<"copy", 0, 0, 0, 0>>) /\ UNCHANGED shape
Cst == \E c \in 1..NC : \E v \in 1..shape[c].n : Log(<<"cst", c - 1, v - 1, 0, 0>>) /\ UNCHANGED shape
Double == /\ \A i \in 1..NC : shape[i].n >= 2 /\ shape[i].n * 2 <= 3 * MaxV
          /\ Log(<<"double", 0, 0, 0, 0>>) /\ shape' = [i \in 1..NC |-> [shape[i] EXCEPT !.n = 2 * @]]
Mk(n, s) == IF n <= 0 THEN <<>> ELSE <<[n |-> n, o |-> 1, c |-> s.c]>>
Pieces(s, v1, v2) ==
  IF s.o = 1 THEN IF v1 > v2 THEN <<s>> ELSE Mk(v1, s) \o Mk(s.n - v2 - 1, s)
  ELSE IF v1 = v2 + 1 \/ (v1 = 0 /\ v2 = s.n - 1) THEN <<>>
  ELSE IF v1 <= v2 THEN Mk(s.n - (v2 - v1 + 1), s) ELSE Mk(v1 - v2 - 1, s)
DelArc == NC < MaxC /\ \E c \in 1..NC : \E v1, v2 \in 0..(shape[c].n - 1) :
            LET p == Pieces(shape[c], v1, v2) IN
            /\ NC - 1 + Len(p) >= 1
            /\ Log(<<"delarc", c - 1, v1, v2, 0>>) /\ shape' = SubSeq(shape, 1, c - 1) \o p \o SubSeq(shape, c + 1, NC)
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<shape, hist>>
Next == AddCp \/ DropCp \/ Resize \/ SetClr \/ SetVt \/ Wrap \/ Nums \/ Copy \/ Cst \/ Double \/ DelArc \/ Finish
Spec == Init /\ [][Next]_vars
\* every strand keeps at least one vertex; only strands of three or more vertices are closed
Sane == \A i \in 1..NC : shape[i].n >= 1 /\ (shape[i].n < 3 => shape[i].o = 1)
Emit == done => PrintT("HIST " \o ToJson(hist))
=============================================================================
