----------------------------- MODULE TypedTrace -----------------------------
EXTENDS Typed, TraceUtil
VARIABLES k, cap, s, i
Init == k = "list" /\ cap = -1 /\ s = <<>> /\ i = 1
Keys == 5
Full(q) == cap >= 0 /\ Len(q) > cap
Step(e) ==
    CASE e.o = "init" -> /\ k' = e.k /\ cap' = e.cap
                         /\ s' = IF e.k = "map" THEN Gap(Keys) ELSE <<>>
      [] e.o = "put"  -> LET q == IF k = "map" THEN [s EXCEPT ![e.i + 1] = Entry(e.form, e.v)] ELSE Result(s, e.op, e.i, Entry(e.form, e.v)) IN
                         /\ Same("stored", i, ~ Full(q), e.r)
                         /\ s' = (IF Full(q) THEN s ELSE q) /\ UNCHANGED <<k, cap>>
      [] e.o = "look" -> /\ Same("typed readings", i, Shown(At(s, e.i)), e.g)
                         /\ Same("taken for", i, From(At(s, e.i)), e.from)
                         /\ Same("fallbacks", i, Else(At(s, e.i)), e.else)
                         /\ Same("the value", i, Own(At(s, e.i)), e.v)
                         /\ Holds("equal values, equal hash codes", i, e.h)
                         /\ UNCHANGED <<k, cap, s>>
      [] e.o = "size" -> /\ Same("size", i, IF k = "map" THEN Len(SelectSeq(s, LAMBDA x : x # Nothing)) ELSE Len(s), e.n)
                         /\ UNCHANGED <<k, cap, s>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
