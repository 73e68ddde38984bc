------------------------------- MODULE IterMC -------------------------------
(* Design check: every iterator takes each of its values exactly once per round, in increasing order
   (reflections excepted), and the group operations obey the group laws.                          *)
EXTENDS Iter
CONSTANTS Kinds, Shapes      \* element kinds, sequences of sizes
ShapesP == {<<1>>, <<2>>, <<3>>, <<4>>, <<2,3>>, <<3,1,2>>, <<2,2,2>>}
ShapesD == {<<1>>, <<2>>, <<3>>, <<7>>, <<2,3>>, <<1,1>>, <<4,1,3>>, <<2,2,2,2>>}
VARIABLES start, seen
Init == \E k \in Kinds, s \in Shapes : obj = <<New(k, s)>> /\ start = New(k, s) /\ seen = <<New(k, s)>>
Next == /\ Len(seen) < Count(start)
        /\ obj' = <<NextV(obj[1])>> /\ seen' = Append(seen, NextV(obj[1])) /\ start' = start
Spec == Init /\ [][Next]_<<obj, start, seen>>
\* (the whole round is in `seen` in the last state)
Distinct == Len(seen) = Count(start) =>
   /\ Cardinality({seen[i] : i \in 1..Len(seen)}) = Len(seen)
   /\ NextV(obj[1]) = start
Valid1(x) == LET n == Len(x.m) IN
  CASE x.k = "p" -> {x.m[i] : i \in 1..n} = 0..(n-1)
    [] x.k = "c" -> \E r \in 0..(n-1) : x.m = Rot(n, r)
    [] x.k = "d" -> IF x.o = 1 THEN \E r \in 0..(n-1) : x.m = Rot(n, r) ELSE \E r \in 0..(n-1) : x.m = Ref(n, r)
    [] x.k = "o" -> x.o \in {0, 1}
Valid == \A i \in 1..Len(obj[1]) : Valid1(obj[1][i])
Ordered == (Len(seen) > 1 /\ start[1].k = "p") => CmpV(seen[Len(seen)-1], seen[Len(seen)], 1) = -1
Laws == (start[1].k = "p" /\ Len(start) = 1) =>
   LET a == obj[1][1].m IN
   /\ Compose(a, Inverse(a)) = Ident(Len(a)) /\ Compose(Inverse(a), a) = Ident(Len(a))
   /\ \A i \in 1..Len(seen) : Inverse(Compose(a, seen[i][1].m)) = Compose(Inverse(seen[i][1].m), Inverse(a))
=============================================================================
