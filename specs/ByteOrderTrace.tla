--------------------------- MODULE ByteOrderTrace ---------------------------
EXTENDS ByteOrder, TraceUtil
VARIABLES i
Init == i = 1
Step(e) == /\ Same("layout", i, Layout(e.order, e.n), e.to)
           /\ Same("number read back", i, Layout(e.order, e.m), e.from)
           /\ Same("there and back", i, e.n, e.back)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
