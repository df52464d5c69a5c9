----------------------------- MODULE DequeGen -----------------------------
(* Enumerates every sequence of Depth operations of Deque with the results    *)
(* the specification prescribes, for replay into the real queue.              *)
EXTENDS Deque, TLC, Json

CONSTANTS Depth, Caps

VARIABLES s, next, hist, cap0

Ops == {"push", "pushh", "pushl", "pushhl", "pop", "popt"}

Init == cap0 \in Caps /\ s = Fresh(cap0) /\ next = 1 /\ hist = <<>>

Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
            LET a == Apply(s, op, next, 2 * s.cap)
                h == Append(hist, <<op, next, a.r, a.v, Len(a.s.q)>>) IN
            /\ s' = a.s
            /\ next' = next + 1
            /\ hist' = h
            /\ cap0' = cap0
            /\ Len(h) = Depth => PrintT("@@" \o ToJson([c |-> cap0, h |-> h]))
=============================================================================
