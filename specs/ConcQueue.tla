----------------------------- MODULE ConcQueue -----------------------------
(* Thread-safe queues.  A call is pending from its start to its return and    *)
(* takes effect atomically at one moment in between; what it does at that     *)
(* moment is what the sequential queue does.  Kind 0 is the multi-threaded    *)
(* queue of fixed or growing capacity, kind 1 the general queue.              *)
EXTENDS Integers, Sequences, FiniteSets

D == INSTANCE Deque
E == INSTANCE EditQueue

Fill(n) == [k \in 1 .. n |-> k]
FreshQ(kind, cap, fill) == [kind |-> kind, q |-> Fill(fill), cap |-> cap]

Out(s, r, v, see) == [s |-> s, r |-> r, v |-> v, see |-> see]

(* verdict of the callback: the item x is the one looked for *)
Verdicts(q, x, hit) == [y \in {q[k] : k \in 1 .. Len(q)} |-> IF y = x THEN hit ELSE 0]

Takes == {"pop", "popt", "redp"}
Forever(kind, f, a) == f \in Takes /\ (IF kind = 0 THEN a = -1 ELSE a < 0)
Timed(f, a) == f \in Takes /\ a > 0

(* a call can take effect now *)
Ready(s, f, a) == Forever(s.kind, f, a) => s.q # <<>>

Effect(s, f, x, a) ==
    IF f = "size" THEN Out(s, Len(s.q), 0, <<>>)
    ELSE IF f = "empty" THEN Out(s, IF s.q = <<>> THEN 1 ELSE 0, 0, <<>>)
    ELSE IF s.kind = 0 THEN
        LET d == D!Apply([q |-> s.q, cap |-> s.cap, total |-> 0], f, x, 99) IN
        Out([s EXCEPT !.q = d.s.q, !.cap = d.s.cap], d.r, d.v, <<>>)
    ELSE
        LET e == E!Apply(s.q, f, x, a, Verdicts(s.q, x, IF f = "redp" THEN -1 ELSE -2)) IN
        Out([s EXCEPT !.q = e.q], e.r, e.v, e.see)

Idle == [f |-> "none"]
Called(f, x, a, now) == [f |-> f, x |-> x, a |-> a, now |-> now, done |-> FALSE, out |-> 0]
Pending(p) == p.f # "none" /\ ~ p.done
Emptyhanded(s, p) == p.f \in Takes /\ p.out.r = (IF s.kind = 0 THEN 0 ELSE -2)

(* the system may rest with exactly the threads B blocked *)
MayRest(s, pend, B) ==
    /\ \A t \in DOMAIN pend : pend[t].f # "none" <=> t \in B
    /\ \A t \in B : ~ pend[t].done /\ Forever(s.kind, pend[t].f, pend[t].a)
    /\ B # {} => s.q = <<>>
=============================================================================
