----------------------------- MODULE BufferPool -----------------------------
(* A pool of reusable buffers.  Every buffer that exists is either idle in    *)
(* the pool, held by exactly one thread, or on its way to be discarded.       *)
(* Sizes are pairs of 16-bit halves.                                          *)
EXTENDS Integers, Sequences, FiniteSets

Plus(x, y) == LET lo == x[2] + y[2] IN <<x[1] + y[1] + lo \div 65536, lo % 65536>>
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])

(* h: header every buffer starts with; m: size of the buffers kept *)
NewPool(h, m) == [h |-> h, m |-> m, idle |-> {}, held |-> {}, gone |-> {}]

Fits(s, size) == Leq(Plus(size, s.h), s.m)
Unused(s, b) == b \notin s.idle \cup s.held \cup s.gone
Known(s) == s.idle \cup s.held \cup s.gone

HandOut(s, b) == [s EXCEPT !.idle = @ \ {b}, !.held = @ \cup {b}]
Keep(s, b) == [s EXCEPT !.held = @ \ {b}, !.idle = @ \cup {b}]
Out(s, b) == [s EXCEPT !.idle = @ \ {b}]
Gone(s, b) == [s EXCEPT !.held = @ \ {b}, !.gone = @ \cup {b}]
=============================================================================
