----------------------------- MODULE AtomicTrace ----------------------------
EXTENDS Atomic, HistUtil
VARIABLES v, pend, i
vars == <<v, pend, i>>
Idle == [f |-> "none"]
None == [t \in 1 .. 6 |-> Idle]
Init == v = <<0>> /\ pend = None /\ i = 1
E0 == Trace[i]
Pending(p) == p.f # "none" /\ ~ p.done
Lin(t) ==
    /\ E0.o = "ret" /\ Pending(pend[E0.t])
    /\ Pending(pend[t])
    /\ LET o == Effect(v, pend[t].f, pend[t].a, pend[t].b) IN
       /\ v' = o.v
       /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].r = o.r]
    /\ UNCHANGED i
Event ==
    LET e == E0 IN
    CASE e.o = "init" -> v' = e.v /\ pend' = None
      [] e.o = "call" -> pend' = [pend EXCEPT ![e.t] = [f |-> e.f, a |-> e.a, b |-> e.b, done |-> FALSE, r |-> <<>>]] /\ UNCHANGED v
      [] e.o = "ret"  -> /\ pend[e.t].f # "none" /\ pend[e.t].done /\ pend[e.t].r = e.r
                         /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ UNCHANGED v
      [] e.o = "left" -> e.v = v /\ UNCHANGED <<v, pend>>
Next == /\ i <= Len(Trace)
        /\ \/ Event /\ i' = i + 1
           \/ \E t \in 1 .. 6 : Lin(t)
Spec == Init /\ [][Next]_vars
Mark == Progress(i)
Post == Explained
=============================================================================
