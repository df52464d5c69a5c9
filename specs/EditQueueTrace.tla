--------------------------- MODULE EditQueueTrace ---------------------------
(* Recorded calls on the real general queue must be steps of EditQueue.       *)
EXTENDS EditQueue, TraceUtil

VARIABLES q, i

Init == q = <<>> /\ i = 1

(* verdicts are logged as 1 .. 8 entries, item x has entry x + 1 *)
Verdicts(e) == [x \in 0 .. (Len(e.vd) - 1) |-> e.vd[x + 1]]

Step(e) ==
    IF e.o = "init" THEN q' = e.q
    ELSE LET a == Apply(q, e.o, e.x, e.a, Verdicts(e)) IN
         /\ Same(e.o \o " status", i, a.r, e.r)
         /\ Same(e.o \o " item", i, a.v, e.v)
         /\ Same(e.o \o " visited", i, a.see, e.see)
         /\ Same(e.o \o " contents", i, a.q, e.q)
         /\ Same(e.o \o " size", i, Len(a.q), e.n)
         /\ q' = a.q

Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
