----------------------------- MODULE ClockTrace -----------------------------
(* Every recorded call on the clock gives the exact answer. *)
EXTENDS Clock, TraceUtil

VARIABLE i
Init == i = 1
Step(e) == Same(e.f, i, Answer(e.f, [s |-> Norm(e.s), n |-> Norm(e.n)], Norm(e.x), Norm(e.y)), <<Norm(e.r), Norm(e.q)>>)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
