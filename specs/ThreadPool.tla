----------------------------- MODULE ThreadPool -----------------------------
(* A pool of worker threads.  An accepted task waits in order, is taken by    *)
(* one worker, runs there once, and shutdown returns when all accepted tasks  *)
(* have finished and all workers have ended.  A running task may queue tasks. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT MaxThreads

Threads == 1 .. MaxThreads
Open == "open"
Closing == "closing"
Closed == "closed"

New(n, fini) == [n |-> n, fini |-> fini, q |-> <<>>, phase |-> Open,
                 taken |-> [t \in Threads |-> 0], running |-> [t \in Threads |-> 0],
                 ended |-> {}, workers |-> {}]

(* acceptance of a task: refused if no worker runs, or (at the choice of the  *)
(* pool) once shutdown has begun                                              *)
Accept(s, x) == [s EXCEPT !.q = Append(@, x)]
MayAccept(s) == s.n > 0 /\ s.phase # Closed
MayRefuse(s) == s.n = 0 \/ s.phase # Open

(* a worker takes the task at the head *)
MayTake(s, w) == /\ s.q # <<>> /\ s.taken[w] = 0 /\ s.running[w] = 0 /\ w \notin s.ended
                 /\ w \in s.workers \/ Cardinality(s.workers) < s.n
Take(s, w) == [s EXCEPT !.q = Tail(@), !.taken[w] = Head(s.q), !.workers = @ \cup {w}]

MayStart(s, w, x) == s.taken[w] = x
Start(s, w, x) == [s EXCEPT !.taken[w] = 0, !.running[w] = x]
MayFinish(s, w, x) == s.running[w] = x
Finish(s, w, x) == [s EXCEPT !.running[w] = 0]

(* the finaliser runs once on a worker that will do nothing more *)
MayEnd(s, w) == /\ s.phase = Closing /\ s.fini = 1 /\ w \notin s.ended /\ s.taken[w] = 0 /\ s.running[w] = 0
                /\ w \in s.workers \/ Cardinality(s.workers) < s.n
End(s, w) == [s EXCEPT !.ended = @ \cup {w}, !.workers = @ \cup {w}]

Quiet(s) == s.q = <<>> /\ \A w \in Threads : s.taken[w] = 0 /\ s.running[w] = 0
MayClose(s) == Quiet(s) /\ (s.fini = 1 => Cardinality(s.ended) = s.n)
=============================================================================
