---------------------------- MODULE HelpersTrace ----------------------------
EXTENDS Helpers, TraceUtil
VARIABLES i
Init == i = 1
Step(e) ==
    CASE e.o = "sleep" -> Same("time slept", i, Sleep(e.ms), e.r)
      [] e.o = "name"  -> /\ (Fits(e.want) => Same("thread name", i, e.want, e.r))
                          /\ Holds("thread name too long", i, Fits(e.r))
                          /\ Same("name of the other thread", i, e.was, e.other)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
