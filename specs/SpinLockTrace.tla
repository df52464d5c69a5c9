--------------------------- MODULE SpinLockTrace ----------------------------
(* want: the call to take the lock starts; got: it returned, having changed   *)
(* (writers) or read the data; give: the lock is about to be given back.      *)
EXTENDS SpinLock, TraceUtil
VARIABLES s, want, i
Init == s = Fresh /\ want = [t \in 1 .. 6 |-> Idle] /\ i = 1
Step(e) ==
    CASE e.o = "init" -> s' = Fresh /\ want' = [t \in 1 .. 6 |-> Idle]
      [] e.o = "want" -> s' = s /\ want' = [want EXCEPT ![e.t] = e.f]
      [] e.o = "got"  -> /\ Holds("lock held twice", i, CanTake(s, want[e.t]))
                         /\ s' = Take(s, e.t, want[e.t])
                         /\ Same("protected data", i, s'.d, e.d)
                         /\ want' = [want EXCEPT ![e.t] = Idle]
      [] e.o = "give" -> s' = Give(s, e.t) /\ want' = want /\ Same("protected data", i, s.d, e.d)
      [] e.o = "end"  -> s' = s /\ want' = want /\ Same("threads left waiting", i, <<>>, e.b)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
