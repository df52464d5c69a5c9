--------------------------- MODULE ConcQueueTrace ---------------------------
(* A recorded history of calls and returns is accepted iff some placement of  *)
(* the moments of effect explains every result.                               *)
EXTENDS ConcQueue, HistUtil

VARIABLES s, pend, n, i
vars == <<s, pend, n, i>>

None == [t \in 1 .. 6 |-> Idle]
Init == s = FreshQ(0, 1, 0) /\ pend = None /\ n = 0 /\ i = 1

E0 == Trace[i]
Go == i' = i + 1

(* moments of effect are only placed when a return or the end asks for them *)
Asked == \/ E0.o = "ret" /\ Pending(pend[E0.t])
         \/ E0.o = "end"

Lin(t) ==
    /\ Asked
    /\ Pending(pend[t])
    /\ Ready(s, pend[t].f, pend[t].a)
    /\ LET o == Effect(s, pend[t].f, pend[t].x, pend[t].a) IN
       /\ s' = o.s
       /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].out = [r |-> o.r, v |-> o.v, see |-> o.see]]
    /\ UNCHANGED <<n, i>>

InTime(p, e) ==
    Timed(p.f, p.a) /\ Emptyhanded(s, p) =>
        /\ Holds("gave up " \o ToString(p.now + p.a - e.now) \o " ms early", i, e.now >= p.now + p.a)
        /\ Holds("gave up late", i, n = 1 => e.now <= p.now + p.a)

Event ==
    LET e == E0 IN
    CASE e.o = "init" -> s' = FreshQ(e.k, e.c, e.fill) /\ pend' = None /\ n' = e.n
      [] e.o = "call" -> /\ pend' = [pend EXCEPT ![e.t] = Called(e.f, e.x, e.a, e.now)]
                         /\ UNCHANGED <<s, n>>
      [] e.o = "ret"  -> /\ pend[e.t].f # "none" /\ pend[e.t].done
                         /\ pend[e.t].out = [r |-> e.r, v |-> e.v, see |-> e.see]
                         /\ InTime(pend[e.t], e)
                         /\ pend' = [pend EXCEPT ![e.t] = Idle]
                         /\ UNCHANGED <<s, n>>
      [] e.o = "end"  -> MayRest(s, pend, {e.b[k] : k \in 1 .. Len(e.b)}) /\ UNCHANGED <<s, pend, n>>
      [] e.o = "left" -> e.q = s.q /\ UNCHANGED <<s, pend, n>>

Next == /\ i <= Len(Trace)
        /\ \/ Event /\ Go
           \/ \E t \in 1 .. 6 : Lin(t)

Spec == Init /\ [][Next]_vars
Mark == Progress(i)
Post == Explained
=============================================================================
