------------------------------ MODULE StoreHist ------------------------------
(* Design-level model of a collection of diagrams, and generator of histories for the driver.

   Objects are abstracted to (hash, isomorphism class, isotopy class); a store to a set of
   records [h, u, k] (hash, number, object).  Every history of Len0 calls is explored; the
   invariants are the guarantees of the two-level index.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, HashOf, IsoOf, TopOf,    \* objects 0..; functions given as sequences (index +1)
          Len0, EqSet, Emitting

VARIABLES store, hist, onlyEq, done
vars == <<store, hist, onlyEq, done>>

H(k) == HashOf[k+1]
Eq(eq, a, b) == IF eq = 1 THEN IsoOf[a+1] = IsoOf[b+1] ELSE IF eq = 2 THEN TopOf[a+1] = TopOf[b+1] ELSE FALSE
Max(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
Insert(s, k, eq) ==
  IF \E e \in s : e.h = H(k) /\ Eq(eq, e.k, k) THEN s
  ELSE s \cup {[h |-> H(k), u |-> 1 + Max({e.u : e \in {x \in s : x.h = H(k)}}), k |-> k]}
RECURSIVE InsertAll(_,_,_)
InsertAll(s, todo, eq) == IF todo = {} THEN s
                          ELSE LET e == CHOOSE x \in todo : TRUE IN InsertAll(Insert(s, e.k, eq), todo \ {e}, eq)

Init == store = {} /\ hist = <<>> /\ onlyEq = 3 /\ done = FALSE
Do(op, s, eq) == /\ Len(hist) < Len0 /\ ~done
                 /\ hist' = Append(hist, op) /\ store' = s
                 /\ onlyEq' = (IF eq = 3 THEN onlyEq ELSE IF onlyEq \in {3, eq} THEN eq ELSE -1)
                 /\ UNCHANGED done
Add(k, eq) == Do(<<"add", k, eq>>, Insert(store, k, eq), eq)
Find(k) == Do(<<"find", k, 0>>, store, 3)
Round(eq) == Do(<<"round", 0, eq>>, InsertAll({}, store, eq), eq)
Fresh == Do(<<"new", 0, 0>>, {}, 3)
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<store, hist, onlyEq>>
Next == \/ \E k \in Objs, eq \in EqSet : Add(k, eq)
        \/ \E k \in Objs : Find(k)
        \/ \E eq \in EqSet : Round(eq)
        \/ Fresh \/ Finish
Spec == Init /\ [][Next]_vars

\* (hash, number) identifies an element
Identified == \A a, b \in store : (a.h = b.h /\ a.u = b.u) => a = b
\* a store filled up to an equivalence only holds at most one element of each class
OnePerClass == onlyEq \in {1, 2} => \A a, b \in store : Eq(onlyEq, a.k, b.k) => a = b
\* adding again what is there changes nothing; whatever was added is found
Idempotent == onlyEq \in {1, 2} => \A e \in store : Insert(store, e.k, onlyEq) = store
Findable == \A i \in 1..Len(hist) : hist[i][1] = "add" /\ (\A j \in i..Len(hist) : hist[j][1] # "new")
              => \E e \in store : IsoOf[e.k+1] = IsoOf[hist[i][2]+1]
Emit == (Emitting /\ done) => PrintT("HIST " \o ToJson(hist))
=============================================================================
