---------------------------- MODULE PublishTrace ----------------------------
(* Data written before a releasing operation is seen by whoever sees that     *)
(* operation through an acquiring one.                                        *)
EXTENDS Integers, TraceUtil
VARIABLES i
Init == i = 1
Step(e) == CASE e.o = "init" -> TRUE
             [] e.o = "saw" -> Same("published data", i, 42, e.d)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
