--------------------------- MODULE IterationTrace ---------------------------
EXTENDS Iteration, TraceUtil
VARIABLES n, p, i
Init == n = 0 /\ p = <<0, 0>> /\ i = 1
B(x) == IF x THEN 1 ELSE 0
Step(e) ==
    IF e.o = "init" THEN n' = e.n /\ p' = <<0, 0>> /\ Same("size", i, e.n, e.s)
    ELSE IF e.o = "open" THEN n' = n /\ p' = [p EXCEPT ![e.c] = 0]
    ELSE IF e.o = "has" THEN UNCHANGED <<n, p>> /\ Same("has next", i, B(HasNext(n, p[e.c])), e.r)
    ELSE IF e.o = "next" THEN
        /\ Same("next", i, NextItem(n, p[e.c]), e.r)
        /\ n' = n /\ p' = [p EXCEPT ![e.c] = Advance(n, @)]
    ELSE \* visit with a callback refusing call k; seen = elements in call order
        /\ Same("verdict", i, B(Complete(n, e.k)), e.r)
        /\ Same("elements seen", i, [j \in 1..Seen(n, e.k) |-> j], e.seen)
        /\ UNCHANGED <<n, p>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
