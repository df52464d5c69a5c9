----------------------------- MODULE MakersTrace ----------------------------
EXTENDS Makers, TraceUtil
VARIABLES s, i
Init == s = <<>> /\ i = 1
Step(e) ==
    CASE e.o = "init" -> s' = [k \in 1 .. 3 |-> <<>>]
      [] e.o = "make" ->
           /\ s' = Make(s, e, e.r = 0)
           /\ Holds("refused only if an allocation failed", i, e.r = 0 \/ e.hit = 1)
      [] e.o = "look" ->
           /\ s' = s
           /\ Same("what the object shows", i, Content(s[e.i][1], s[e.i][2]), e.c)
      [] e.o = "drop" -> s' = [s EXCEPT ![e.i] = <<>>]
      [] e.o = "end" -> s' = s /\ Same("blocks still held", i, 0, e.live)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
