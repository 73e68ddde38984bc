------------------------------- MODULE PDHist -------------------------------
(* Generator of call histories for the diagram driver: words over the diagram operations with
   the raw numbers from which the driver picks an applicable place (crossing, face, edge,
   component).  Exhaustive for short words, random (-simulate) for long ones.               *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Len0,        \* length of the histories
          Choices,     \* raw numbers
          Ops          \* operation letters

VARIABLES hist, done
Init == hist = <<>> /\ done = FALSE
Grow == /\ Len(hist) < Len0
        /\ \E o \in Ops : \E k \in Choices : hist' = Append(hist, <<o, k>>)
        /\ UNCHANGED done
\* a last step with a single successor, so that a simulated behaviour emits exactly one history
Finish == Len(hist) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED hist
Next == Grow \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("HIST " \o ToJson(hist))
=============================================================================
