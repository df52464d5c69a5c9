----------------------------- MODULE VectorTrace -----------------------------
EXTENDS Vector, TraceUtil
VARIABLES q, i
Init == q = <<>> /\ i = 1
Step(e) ==
    IF e.o = "init" THEN q' = <<>> /\ Same("fresh size", i, 0, e.n)
    ELSE LET a == Apply(q, e.o, e.x, e.ix) IN
         /\ Same(e.o \o " result", i, a.r, e.r)
         /\ Same(e.o \o " size", i, Len(a.q), e.n)
         /\ Same(e.o \o " items", i, a.q, e.q)
         /\ "arr" \in DOMAIN e =>
                /\ Same(e.o \o " array copy", i, a.q, e.arr)
                /\ Same(e.o \o " array copy size", i, Len(a.q), e.arrn)
         /\ Holds("capacity covers the items", i, e.c >= Len(a.q))
         /\ q' = a.q
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
