---------------------------- MODULE LoggingTrace ----------------------------
EXTENDS Logging, TraceUtil
VARIABLES s, i
Init == s = Fresh /\ i = 1
Step(e) ==
    CASE e.o = "init"  -> s' = Fresh /\ Same("level of a fresh process", i, <<2, 0>>, <<e.level, e.to>>)
      [] e.o = "level" -> s' = [s EXCEPT !.level = e.l]
      [] e.o = "to"    -> s' = [s EXCEPT !.to = e.c]
      [] e.o = "log"   -> s' = s /\ Same("messages delivered", i, Delivered(s, e.l, e.m, e.line), e.got)
      [] e.o = "on"    -> s' = s /\ Same("levels enabled", i, [l \in 1 .. 5 |-> Enabled(s, l - 1)], e.r)
      [] e.o = "name"  -> s' = s /\ Same("level name", i, Names[e.l + 1], e.r)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
