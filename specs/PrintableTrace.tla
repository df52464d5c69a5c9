--------------------------- MODULE PrintableTrace ---------------------------
EXTENDS Printable, TraceUtil
VARIABLES x, i
Init == x = 0 /\ i = 1
Step(e) ==
    /\ x' = x
    /\ LET v == Norm(e.v) IN
       /\ Same("has a printable form", i, Own(v), e.r = 1)
       /\ (Own(v) => Same("printable form", i, Text(v), e.w))
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
