--------------------------- MODULE ThreadPoolTrace ---------------------------
(* Recorded histories of a real pool, explained by ThreadPool. *)
EXTENDS ThreadPool, HistUtil

VARIABLES s, pend, i
vars == <<s, pend, i>>
None == [t \in Threads |-> [x |-> 0, done |-> FALSE, r |-> 0]]
Init == s = New(0, 0) /\ pend = None /\ i = 1
E0 == Trace[i]

Pending(t) == pend[t].x # 0 /\ ~ pend[t].done

(* a queueing call takes effect *)
Lin(t) ==
    /\ Pending(t)
    /\ E0.o = "start" \/ (E0.o = "ret" /\ Pending(E0.t))
    /\ \/ MayAccept(s) /\ s' = Accept(s, pend[t].x) /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].r = 0]
       \/ MayRefuse(s) /\ s' = s /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].r = -1]
    /\ UNCHANGED i

(* a worker takes a task, when its start or that of a later one asks for it *)
Grab(w) == /\ E0.o = "start" /\ s.taken[E0.w] = 0
           /\ MayTake(s, w) /\ s' = Take(s, w) /\ UNCHANGED <<pend, i>>

Event ==
    LET e == E0 IN
    CASE e.o = "init"   -> s' = New(e.ok, e.f) /\ pend' = None
      [] e.o = "up"     -> /\ Trace[i - 1].w = Trace[i - 1].ok => e.r = 0
                           /\ Trace[i - 1].w # Trace[i - 1].ok => e.r = -3
                           /\ e.k = s.n
                           /\ UNCHANGED <<s, pend>>
      [] e.o = "call"   -> pend' = [pend EXCEPT ![e.t] = [x |-> e.x, done |-> FALSE, r |-> 0]] /\ UNCHANGED s
      [] e.o = "ret"    -> /\ pend[e.t].x # 0 /\ pend[e.t].done
                           /\ e.r = pend[e.t].r
                           /\ pend' = [pend EXCEPT ![e.t] = [x |-> 0, done |-> FALSE, r |-> 0]] /\ UNCHANGED s
      [] e.o = "start"  -> MayStart(s, e.w, e.x) /\ s' = Start(s, e.w, e.x) /\ UNCHANGED pend
      [] e.o = "finish" -> MayFinish(s, e.w, e.x) /\ s' = Finish(s, e.w, e.x) /\ UNCHANGED pend
      [] e.o = "fini"   -> MayEnd(s, e.w) /\ s' = End(s, e.w) /\ UNCHANGED pend
      [] e.o = "dcall"  -> s' = [s EXCEPT !.phase = IF @ = Closed THEN Closed ELSE Closing] /\ UNCHANGED pend
      [] e.o = "dret"   -> /\ e.r = 0 \/ (s.phase = Closed /\ e.r = -2)      \* closed already
                           /\ e.alive = 0
                           /\ s.phase = Closing => MayClose(s)
                           /\ s' = [s EXCEPT !.phase = Closed] /\ UNCHANGED pend
      [] e.o = "end"    -> Quiet(s) /\ UNCHANGED <<s, pend>>

Next == /\ i <= Len(Trace)
        /\ \/ Event /\ i' = i + 1
           \/ \E t \in Threads : Lin(t) \/ Grab(t)
Spec == Init /\ [][Next]_vars
Mark == Progress(i)
Post == Explained
=============================================================================
