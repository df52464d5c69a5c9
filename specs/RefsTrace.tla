------------------------------ MODULE RefsTrace ------------------------------
EXTENDS Refs, HistUtil
VARIABLES s, pend, k, i
vars == <<s, pend, k, i>>
T == 1 .. 6
Idle == [f |-> "-", done |-> FALSE, c |-> 0]
None == [t \in T |-> Idle]
Init == s = NewObject(0) /\ pend = None /\ k = 0 /\ i = 1
E0 == Trace[i]
Pending(t) == pend[t].f # "-" /\ ~ pend[t].done

Lin(t) == /\ E0.o \in {"ret", "free"} /\ Pending(E0.t) /\ Pending(t) /\ May(s)
          /\ LET x == Effect(s, t, pend[t].f) IN
             s' = x.s /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].c = x.c]
          /\ UNCHANGED <<k, i>>
(* values answer whether they still exist; counted blocks the count *)
Answer(p) == IF p.f = "u" THEN 0 ELSE IF k = 1 THEN p.c ELSE IF p.c = 0 THEN 0 ELSE 1
Event ==
    LET e == E0 IN
    CASE e.o = "init" -> s' = NewObject(e.n) /\ pend' = None /\ k' = e.k
      [] e.o = "call" -> ~ s.gone /\ pend' = [pend EXCEPT ![e.t] = [f |-> e.f, done |-> FALSE, c |-> 0]] /\ UNCHANGED <<s, k>>
      [] e.o = "ret"  -> /\ pend[e.t].done /\ e.r = Answer(pend[e.t])
                         /\ s.n = 0 /\ s.by = e.t /\ pend[e.t].f = "d" => s.gone
                         /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ UNCHANGED <<s, k>>
      [] e.o = "free" -> pend[e.t].done /\ MayFree(s, e.t) /\ s' = Freed(s) /\ UNCHANGED <<pend, k>>
      [] e.o = "end"  -> s.n = 0 /\ s.gone /\ UNCHANGED <<s, pend, k>>
Next == /\ i <= Len(Trace)
        /\ \/ Event /\ i' = i + 1
           \/ \E t \in T : Lin(t)
Spec == Init /\ [][Next]_vars
Mark == Progress(i)
Post == Explained
=============================================================================
