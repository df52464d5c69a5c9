---------------------------- MODULE MonitorTrace ----------------------------
EXTENDS Monitor, HistUtil

VARIABLES flag, pend, i
vars == <<flag, pend, i>>
T == 1 .. 9
None == [t \in T |-> [f |-> "-", done |-> FALSE]]
Init == flag = FALSE /\ pend = None /\ i = 1
E0 == Trace[i]
Pending(t) == pend[t].f # "-" /\ ~ pend[t].done

Asked == (E0.o = "ret" /\ Pending(E0.t)) \/ E0.o = "end"
Lin(t) == /\ Asked /\ Pending(t) /\ May(flag, pend[t].f)
          /\ flag' = After(flag, pend[t].f)
          /\ pend' = [pend EXCEPT ![t].done = TRUE] /\ UNCHANGED i

Event ==
    LET e == E0 IN
    CASE e.o = "init" -> flag' = FALSE /\ pend' = None
      [] e.o = "call" -> pend' = [pend EXCEPT ![e.t] = [f |-> e.f, done |-> FALSE]] /\ UNCHANGED flag
      [] e.o = "ret"  -> pend[e.t].f # "-" /\ pend[e.t].done /\ pend' = [pend EXCEPT ![e.t].f = "-"] /\ UNCHANGED flag
      [] e.o = "end"  -> /\ \A t \in T : Pending(t) <=> (\E k \in 1 .. Len(e.b) : e.b[k] = t)
                         /\ \A t \in T : Pending(t) => MayRest(flag, pend[t].f)
                         /\ UNCHANGED <<flag, pend>>
Next == /\ i <= Len(Trace)
        /\ \/ Event /\ i' = i + 1
           \/ \E t \in T : Lin(t)
Spec == Init /\ [][Next]_vars
Mark == Progress(i)
Post == Explained
=============================================================================
