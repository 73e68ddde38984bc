------------------------------ MODULE PLCFile ------------------------------
(* VECT files.  A text is a sequence of items [t, s, g, z]:
     t = "n": number, "w": other word, "#": a comment starts, "c"/"d": word / number of a comment
     z = 1: the item is an integer and g its value; z = 0: g is the value on the grid;
     z = 2: a word the scanner may read in part (then nothing is claimed about the file).
   Parse gives the curve the text describes, or the error codes a reader may report.     *)
EXTENDS PLCurve

Data(items) == SelectSeq([i \in 1..Len(items) |-> i], LAMBDA i : items[i].t \in {"n", "w"})
Val(it) == IF it.z = 1 THEN it.g * Unit ELSE it.g
OkCurve(c) == [ok |-> 1, codes |-> {0}, cv |-> c]
Err(S) == [ok |-> 0, codes |-> S, cv |-> NoCurve]
AnyResult == [ok |-> 2, codes |-> {}, cv |-> NoCurve]

RECURSIVE Defs(_,_)
\* definitions in a block of comment items W: <<status, function number -> [k, x]>>; status 1 good, 0 bad, 2 unclear
NumsAt(W, p, n) == p + n - 1 <= Len(W) /\ \A j \in p..(p+n-1) : W[j].t = "d"
Unclear(W, p, n) == \E j \in p..Min(Len(W), p+n-1) : W[j].z = 2
Vec(W, p) == <<Val(W[p]), Val(W[p+1]), Val(W[p+2])>>
Extend(f, n, v) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN v ELSE f[m]]
Defs(W, f) ==
  LET I == {i \in 1..Len(W) : W[i].s = "Constraint"} IN
  IF I = {} THEN <<1, f>>
  ELSE LET i == MinOf(I)  N == 7 IN
  IF i = Len(W) THEN <<2, f>>
  ELSE IF i + 2 > Len(W) THEN <<0, f>>
  ELSE IF W[i+1].t # "d" THEN <<IF W[i+1].z = 2 THEN 2 ELSE 0, f>>
  ELSE IF W[i+1].z # 1 \/ W[i+1].g > 100000 THEN <<2, f>>
  ELSE IF W[i+1].g < 1 THEN <<0, f>>
  ELSE LET kind == W[i+2].s  q == i + 3
           need == CASE kind = "Fixed" -> 3 [] kind = "Line" -> 6 [] kind = "Plane" -> 4 [] OTHER -> 0
       IN IF need = 0 THEN <<0, f>>
          ELSE IF Unclear(W, q, need) THEN <<2, f>>
          ELSE IF ~NumsAt(W, q, need) THEN <<0, f>>
          ELSE LET d == CASE kind = "Fixed" -> [k |-> 1, x |-> <<Vec(W, q), Zero>>]
                          [] kind = "Line"  -> [k |-> 2, x |-> <<Vec(W, q), Vec(W, q+3)>>]
                          [] OTHER          -> [k |-> 3, x |-> <<Vec(W, q), <<Val(W[q+3]), 0, 0>> >>]
               IN Defs(Seg(W, q + need, Len(W)), Extend(f, W[i+1].g, d))

\* the constraint number a vertex is marked with: <<status, number>>
Mark(W) ==
  LET I == {i \in 1..Len(W) : W[i].s = "Cst:"} IN
  IF I = {} THEN <<1, 0>>
  ELSE LET i == MinOf(I) IN
       IF i = Len(W) THEN <<2, 0>>        \* cut off right after the word
       ELSE IF W[i+1].z = 2 THEN <<2, 0>>
       ELSE IF W[i+1].t # "d" THEN <<0, 0>>
       ELSE IF W[i+1].z # 1 THEN <<2, 0>> ELSE <<1, W[i+1].g>>

Parse(items) ==
  LET D == TLCEval(Data(items))
      nd == Len(D)
      It(k) == items[D[k]]
      IsInt(k) == k <= nd /\ It(k).z = 1
      IsNum(k) == k <= nd /\ It(k).t = "n"
      Murk(k) == k <= nd /\ ((It(k).t = "w" /\ It(k).z = 2) \/ (It(k).t = "n" /\ It(k).z = 0))
      Murk2(k) == k <= nd /\ It(k).t = "w" /\ It(k).z = 2
      \* first position in a..b that is not as required
      BadInts(a, b) == {k \in a..b : ~IsInt(k)}
      BadNums(a, b) == {k \in a..b : ~IsNum(k)}
      Words(k) == SelectSeq(Seg(items, D[k] + 1, IF k < nd THEN D[k+1] - 1 ELSE Len(items)), LAMBDA w : w.t \in {"c", "d"})
      nc == It(2).g
      nvs == [i \in 1..nc |-> It(4 + i).g]
      ccs == [i \in 1..nc |-> It(4 + nc + i).g]
      v0 == 4 + 2*nc                       \* data items before the first coordinate
      before == [i \in 1..nc |-> SumTo([j \in 1..nc |-> Abs(nvs[j])], i - 1)]
      total == SumTo([j \in 1..nc |-> Abs(nvs[j])], nc)
      cbefore == [i \in 1..nc |-> SumTo(ccs, i - 1)]
      ctotal == SumTo(ccs, nc)
      c0 == v0 + 3 * total
      defs == TLCEval(Defs(Words(v0), << >>))
      marks == [j \in 1..total |-> Mark(Words(v0 + 3*j))]
      numAt(k) == Val(It(k))
  IN
  IF Len(items) = 0 \/ items[1].t # "w" \/ (items[1].s # "VECT" /\ items[1].z # 2) THEN Err({1})
  ELSE IF items[1].s # "VECT" THEN AnyResult
  ELSE IF BadInts(2, 4) # {} THEN (IF Murk(MinOf(BadInts(2, 4))) THEN AnyResult ELSE Err({2}))
  ELSE IF nc <= 0 THEN Err({3})
  ELSE IF nc > 200 THEN (IF nd >= 4 + nc THEN AnyResult ELSE IF \E k \in 5..nd : It(k).z # 1 THEN AnyResult ELSE Err({4}))
  ELSE IF BadInts(5, 4 + nc) # {} \/ (\E k \in 5..Min(nd, 4+nc) : It(k).g = 0)
       THEN (IF \E k \in 5..Min(nd, 4+nc) : Murk(k) THEN AnyResult ELSE Err({4}))
  ELSE IF \E i \in 1..nc : Abs(nvs[i]) > 10000 THEN AnyResult
  ELSE IF BadInts(5 + nc, 4 + 2*nc) # {} \/ (\E i \in 1..nc : 4+nc+i <= nd /\ (ccs[i] < 0 \/ ccs[i] > Abs(nvs[i])))
       THEN (IF \E k \in (5+nc)..Min(nd, 4+2*nc) : Murk(k) THEN AnyResult ELSE Err({5, 12}))
  ELSE IF defs[1] = 2 THEN AnyResult
  ELSE IF defs[1] = 0 THEN Err({7, 8, 9, 10, 11})
  ELSE IF BadNums(v0 + 1, c0) # {} THEN (IF \E k \in (v0+1)..Min(nd, c0) : Murk2(k) THEN AnyResult ELSE Err({7, 8}))
  ELSE IF \E j \in 1..total : marks[j][1] = 2 THEN AnyResult
  ELSE IF \E j \in 1..total : marks[j][1] = 0 \/ (marks[j][2] # 0 /\ marks[j][2] \notin DOMAIN defs[2]) THEN Err({7, 8})
  ELSE IF BadNums(c0 + 1, c0 + 4 * ctotal) # {} THEN (IF \E k \in (c0+1)..Min(nd, c0 + 4*ctotal) : Murk2(k) THEN AnyResult ELSE Err({6}))
  ELSE OkCurve([
         cp |-> [i \in 1..nc |-> MkStrand(IF nvs[i] > 0 THEN 1 ELSE 0,
                   [j \in 1..Abs(nvs[i]) |-> [k \in 1..3 |-> numAt(v0 + 3*(before[i] + j - 1) + k)]],
                   [j \in 1..ccs[i] |-> [k \in 1..4 |-> numAt(c0 + 4*(cbefore[i] + j - 1) + k)]])],
         cst |-> UNION {{[c |-> i - 1, v |-> j - 1, k |-> defs[2][marks[before[i]+j][2]].k, x |-> defs[2][marks[before[i]+j][2]].x]
                          : j \in {w \in 1..Abs(nvs[i]) : marks[before[i]+w][2] # 0}} : i \in 1..nc}])

\* the header of a file tells the counts
HeaderOK(items, L) ==
  LET D == Data(items) IN
  Len(D) >= 4 /\ items[D[2]].g = Len(L.cp)
  /\ items[D[3]].g = Sum([i \in 1..Len(L.cp) |-> Nv(L.cp[i])]) /\ items[D[4]].g = Sum([i \in 1..Len(L.cp) |-> Len(L.cp[i].clr)])
=============================================================================
