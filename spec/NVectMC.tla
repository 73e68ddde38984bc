------------------------------ MODULE NVectMC ------------------------------
(* Laws of the vector operations of NCurve, on all pairs of small vectors. *)
EXTENDS NCurve
CONSTANTS Dims, Grid
VARIABLES a, b, s
vars == <<a, b, s>>
Init == \E n \in Dims : a \in [1..n -> Grid] /\ b \in [1..n -> Grid] /\ s \in Grid
Next == \E n \in {Len(a)} : a' \in [1..n -> Grid] /\ b' = VSub(b, a) /\ s' \in Grid
Spec == Init /\ [][Next]_vars
Law_Norm == VSq(VAdd(a, b)) + VSq(VSub(a, b)) = 2 * (VSq(a) + VSq(b)) /\ VDot(a, b) * VDot(a, b) <= VSq(a) * VSq(b)
Law_Line == VAdd(VTimes(4 - s, a), VTimes(s, b)) = VAdd(VTimes(4, a), VTimes(s, VSub(b, a)))
Law_Part == VSq(VSub(a, b)) = 0 <=> a = b
=============================================================================
