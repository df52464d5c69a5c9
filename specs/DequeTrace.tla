---------------------------- MODULE DequeTrace ----------------------------
(* Recorded calls on the real queue must be steps of Deque.  The capacity    *)
(* chosen when growing is the implementation's business: it only has to make *)
(* room.                                                                     *)
EXTENDS Deque, TraceUtil

VARIABLES s, i

Obs(e, st) ==
    /\ Same("size", i, Len(st.q), e.n)
    /\ Same("empty", i, IF st.q = <<>> THEN 1 ELSE 0, e.e)
    /\ Same("capacity", i, st.cap, e.c)
    /\ Same("total", i, st.total, e.t)

Init == s = Fresh(0) /\ i = 1

Step(e) ==
    IF e.o = "init" THEN
        /\ s' = Fresh(e.cap)
        /\ Obs(e, Fresh(e.cap))
    ELSE IF e.o = "bulk" THEN
        \* a long run of push/pop pairs summarised by the driver
        /\ Same("bulk order", i, 1, e.r)
        /\ s' = [s EXCEPT !.q = <<>>]
        /\ Same("bulk size", i, 2, e.n)
        /\ Same("capacity", i, s.cap, e.c)
    ELSE IF e.o = "mark" THEN
        /\ Same("bulk order", i, 1, e.r)
        /\ s' = [s EXCEPT !.q = e.q]
        /\ Obs(e, [s EXCEPT !.q = e.q])
    ELSE
        LET res == Apply(s, e.o, e.v, e.c) IN
        /\ Holds("growth makes room", i, Grows(s, e.o) => e.c > s.cap)
        /\ Same(e.o \o " result", i, res.r, e.r)
        /\ (e.o \in {"pop", "popt"}) => Same(e.o \o " item", i, res.v, e.v)
        /\ Obs(e, res.s)
        /\ s' = res.s

Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<s, i>>
Post == Accepted
=============================================================================
