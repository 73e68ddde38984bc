------------------------------- MODULE NearMC -------------------------------
(* Design: the search that sorts the points along one coordinate, starts at the place of the query
   and looks in both directions until the coordinate alone is further away than the best point so
   far, finds a nearest point -- whatever the starting place, the coordinate and the order of ties. *)
EXTENDS PLCurve
CONSTANTS Side, Size
VARIABLES pts, x, dim, start, up, down, best, pc
vars == <<pts, x, dim, start, up, down, best, pc>>
Grid == (0..Side) \X (0..Side) \X {0, 1}
Sorted(s) == \A i \in 1..(Len(s)-1) : s[i][dim] <= s[i+1][dim]
Init == /\ dim \in 1..2 /\ pts \in [1..Size -> Grid] /\ Sorted(pts) /\ x \in Grid
        /\ start \in 1..Size /\ up = start /\ down = start /\ best = start /\ pc = "up"
D(i) == Sq(Sub(pts[i], x))
\* coordinate difference c < distance to the best point
Closer(c) == c < 0 \/ c * c < D(best)
Next == \/ /\ pc = "up" /\ IF up <= Size /\ Closer(pts[up][dim] - x[dim])
                           THEN up' = up + 1 /\ best' = (IF D(up) < D(best) THEN up ELSE best) /\ pc' = pc
                           ELSE pc' = "down" /\ UNCHANGED <<up, best>>
           /\ UNCHANGED <<pts, x, dim, start, down>>
        \/ /\ pc = "down" /\ IF down >= 1 /\ Closer(x[dim] - pts[down][dim])
                             THEN down' = down - 1 /\ best' = (IF D(down) < D(best) THEN down ELSE best) /\ pc' = pc
                             ELSE pc' = "done" /\ UNCHANGED <<down, best>>
           /\ UNCHANGED <<pts, x, dim, start, up>>
        \/ pc = "done" /\ UNCHANGED vars
Finds == pc = "done" => \A i \in 1..Size : D(best) <= D(i)
Spec == Init /\ [][Next]_vars
=============================================================================
