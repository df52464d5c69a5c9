----------------------------- MODULE SourceTrace -----------------------------
(* Requests recorded from the real code.  fail[t]: the source failed during   *)
(* the request of thread t.                                                   *)
EXTENDS Source, TraceUtil
VARIABLES s, pend, fail, i
None == [t \in 1 .. 6 |-> [f |-> "-", n |-> 0]]
Ok == [t \in 1 .. 6 |-> FALSE]
Init == s = NewSource /\ pend = None /\ fail = Ok /\ i = 1

Served(p, e) == /\ Holds("wrong amount", i, p.n >= 0 /\ Length(e.runs) = p.n)
                /\ Holds("material handed out twice or not from the source", i, Fresh(s, e.runs))
                /\ s' = Use(s, e.runs)
Refused(p, e) == /\ Holds("refused without need", i, fail[e.t] \/ (p.f = "b" /\ (p.n < 0 \/ p.n > Largest)))
                 /\ s' = s
Step(e) ==
    CASE e.o = "init" -> s' = NewSource /\ pend' = None /\ fail' = Ok
      [] e.o = "src"  -> s' = Produced(s, e.n) /\ fail' = [fail EXCEPT ![e.t] = @ \/ e.ok = 0] /\ UNCHANGED pend
      [] e.o = "call" -> pend' = [pend EXCEPT ![e.t] = [f |-> e.f, n |-> e.n]] /\ fail' = [fail EXCEPT ![e.t] = FALSE] /\ UNCHANGED s
      [] e.o = "ret"  -> LET p == pend[e.t] IN
                         /\ IF p.f = "b"
                            THEN \/ e.r = 0 /\ Served(p, e)
                                 \/ e.r = -1 /\ Refused(p, e) /\ Holds("refused request wrote the target", i, e.clean = 1)
                            ELSE IF e.zero = 1 THEN Refused(p, e) ELSE Served(p, e)
                         /\ UNCHANGED <<pend, fail>>
      [] e.o = "end"  -> UNCHANGED <<s, pend, fail>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
