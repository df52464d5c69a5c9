--------------------------- MODULE BufferPoolTrace ---------------------------
(* A history of calls on a real pool is accepted iff some placement of the    *)
(* moments of effect explains each status, each buffer handed out and each    *)
(* release.                                                                   *)
EXTENDS BufferPool, HistUtil

VARIABLES s, pend, i
vars == <<s, pend, i>>
T == 0 .. 6
Idle == [f |-> "none", a |-> <<0, 0>>, b |-> 0, c |-> <<0, 0>>, done |-> FALSE, r |-> 0, n |-> 0, drop |-> {}]
None == [t \in T |-> Idle]
Init == s = NewPool(<<0, 0>>, <<0, 0>>) /\ pend = None /\ i = 1
E0 == Trace[i]

(* where thread t next releases something or returns *)
Ahead(t) == CHOOSE j \in i .. Len(Trace) :
                /\ Trace[j].o \in {"free", "ret", "end"} /\ (Trace[j].o = "end" \/ Trace[j].t = t)
                /\ \A k \in i .. (j - 1) : ~ (Trace[k].o \in {"free", "ret"} /\ Trace[k].t = t)

Signed(a) == IF a[1] >= 32768 THEN -1 ELSE IF a[1] > 0 THEN 65536 ELSE a[2]
Small(a) == IF a[1] > 0 THEN 65536 ELSE a[2]

Done(t, r) == [pend EXCEPT ![t].done = TRUE, ![t].r = r]
Asked == E0.o \in {"ret", "free"} /\ pend[E0.t].f # "none" /\ (E0.o = "ret" => ~ pend[E0.t].done)
Lin(t) ==
    LET p == pend[t] e == Trace[Ahead(t)] IN
    /\ Asked /\ p.f # "none" /\ ~ p.done
    /\ CASE p.f = "take" ->
            IF ~ Fits(s, p.a) THEN s' = s /\ pend' = Done(t, 2)
            ELSE IF s.idle = {} THEN s' = s /\ pend' = Done(t, 1)
            ELSE e.o = "ret" /\ e.b \in s.idle /\ s' = HandOut(s, e.b) /\ pend' = [Done(t, 0) EXCEPT ![t].b = e.b]
         [] p.f \in {"give", "givel"} ->
            IF ~ Fits(s, p.c) THEN s' = s /\ pend' = [Done(t, -2) EXCEPT ![t].drop = {p.b}]
            ELSE IF p.f = "givel" /\ Cardinality(s.idle) >= Small(p.a)
            THEN s' = s /\ pend' = [Done(t, -1) EXCEPT ![t].drop = {p.b}]
            ELSE \/ s' = Keep(s, p.b) /\ pend' = Done(t, 0)
                 (* no memory to keep it *)
                 \/ s' = s /\ pend' = [Done(t, -1) EXCEPT ![t].drop = {p.b}, ![t].n = -1]
         [] p.f = "prune" ->
            IF s.idle = {} \/ p.n >= Signed(p.a) THEN s' = s /\ pend' = Done(t, p.n)
            ELSE e.o = "free" /\ e.b \in s.idle /\ s' = Out(s, e.b) /\ pend' = [pend EXCEPT ![t].n = @ + 1, ![t].drop = @ \cup {e.b}]
    /\ UNCHANGED i

Took(p, e) == IF p.r = 0 THEN e.b = p.b /\ s' = s
              ELSE Unused(s, e.b) /\ s' = HandOut(s, e.b)

Event ==
    LET e == E0 IN
    CASE e.o = "init" -> s' = NewPool(e.h, e.m) /\ pend' = None
      [] e.o = "call" -> /\ pend' = [pend EXCEPT ![e.t] = [Idle EXCEPT !.f = e.f, !.a = e.a, !.b = e.b, !.c = e.c]]
                         /\ e.f \in {"give", "givel"} => e.b \in s.held
                         /\ UNCHANGED s
      [] e.o = "ret"  -> LET p == pend[e.t] IN
                         /\ p.f # "none" /\ p.drop = {} /\ p.done
                         /\ e.r = p.r \/ (p.f = "take" /\ p.r > 0 /\ e.r = -1 /\ e.nomem = 1)
                         /\ p.n = -1 => e.nomem = 1
                         /\ IF p.f = "take" /\ e.r >= 0 THEN Took(p, e) /\ Leq(p.a, e.c) ELSE s' = s
                         /\ pend' = [pend EXCEPT ![e.t] = Idle]
      [] e.o = "free" -> \/ /\ e.t > 0 /\ pend[e.t].f # "none" /\ e.b \in pend[e.t].drop
                            /\ s' = Gone(s, e.b)
                            /\ pend' = [pend EXCEPT ![e.t].drop = @ \ {e.b}]
                         \/ /\ e.t = 0 /\ pend[0].f = "down" /\ e.b \in s.idle
                            /\ s' = Out(Gone(s, e.b), e.b) /\ UNCHANGED pend
      [] e.o = "down" -> pend' = [pend EXCEPT ![0] = [Idle EXCEPT !.f = "down", !.done = TRUE]] /\ UNCHANGED s
      [] e.o = "end"  -> s.idle = {} /\ UNCHANGED <<s, pend>>

Next == /\ i <= Len(Trace)
        /\ \/ Event /\ i' = i + 1
           \/ \E t \in T : Lin(t)
Spec == Init /\ [][Next]_vars
Mark == Progress(i)
Post == Explained
=============================================================================
