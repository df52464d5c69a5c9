---------------------------- MODULE ConcListTrace ---------------------------
(* A recorded history is accepted iff some placement of the moments of effect *)
(* explains every result and what is left in both directions.                 *)
EXTENDS ConcList, HistUtil
VARIABLES q, pend, i
vars == <<q, pend, i>>
None == [t \in 1 .. 6 |-> Idle]
Init == q = <<>> /\ pend = None /\ i = 1
E0 == Trace[i]
Asked == E0.o = "ret" /\ Pending(pend[E0.t])
Lin(t) ==
    /\ Asked
    /\ Pending(pend[t])
    /\ LET o == Effect(q, pend[t].f, pend[t].x) IN
       /\ q' = o.q
       /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].out = [r |-> o.r, v |-> o.v, see |-> o.see, gone |-> o.gone]]
    /\ UNCHANGED i
Event ==
    LET e == E0 IN
    CASE e.o = "init" -> q' = Fill(e.fill) /\ pend' = None
      [] e.o = "call" -> pend' = [pend EXCEPT ![e.t] = Called(e.f, e.x)] /\ UNCHANGED q
      [] e.o = "ret"  -> /\ pend[e.t].f # "none" /\ pend[e.t].done
                         /\ pend[e.t].out = [r |-> e.r, v |-> e.v, see |-> e.see, gone |-> e.gone]
                         /\ pend' = [pend EXCEPT ![e.t] = Idle]
                         /\ UNCHANGED q
      [] e.o = "left" -> e.q = q /\ e.b = L!Rev(q) /\ e.n = Len(q) /\ pend = None /\ UNCHANGED <<q, pend>>
Next == /\ i <= Len(Trace)
        /\ \/ Event /\ i' = i + 1
           \/ \E t \in 1 .. 6 : Lin(t)
Spec == Init /\ [][Next]_vars
Mark == Progress(i)
Post == Explained
=============================================================================
