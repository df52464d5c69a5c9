----------------------------- MODULE RingQueue -----------------------------
(* The ring-buffer algorithm behind the queue, refining Deque.               *)
(* Positions head and tail only increase (except that a pushed head moves     *)
(* down); slots are positions modulo the capacity; positions are reduced once *)
(* tail reaches Far (2^30 in the code) and reset when the queue empties.      *)
EXTENDS Deque, Integers

CONSTANTS Caps,      \* initial capacities
          MaxCap,    \* growth bound of the model
          MaxVal,    \* number of distinct items pushed
          Far        \* position at which offsets are reduced

VARIABLES data, head, tail, cap, abs, next, lastr, lastv, absr, absv
vars == <<data, head, tail, cap, abs, next, lastr, lastv, absr, absv>>

None == 0
Slots(c) == 0 .. (c - 1)
Sz == tail - head
At(pos) == data[pos % cap]
Contents == [k \in 1 .. Sz |-> At(head + k - 1)]

Init ==
    /\ cap \in Caps
    /\ data = [k \in Slots(cap) |-> None]
    /\ head = 0 /\ tail = 0 /\ next = 1
    /\ abs = Fresh(cap)
    /\ lastr = 1 /\ lastv = 0 /\ absr = 1 /\ absv = 0

(* Doubling: the part from head to the end of the ring moves to the front. *)
GrownData ==
    [k \in Slots(2 * cap) |-> IF k < cap THEN data[(head + k) % cap] ELSE None]

(* state after making room, as a record *)
Room == IF Sz = cap
        THEN [data |-> GrownData, head |-> 0, tail |-> cap, cap |-> 2 * cap]
        ELSE [data |-> data, head |-> head, tail |-> tail, cap |-> cap]

Unwrap(r) == IF r.tail >= Far
             THEN [r EXCEPT !.head = r.head % r.cap,
                            !.tail = (r.head % r.cap) + (r.tail - r.head)]
             ELSE r

Install(r) == /\ data' = r.data /\ head' = r.head /\ tail' = r.tail /\ cap' = r.cap

PutTail(r, x) == Unwrap([r EXCEPT !.data[r.tail % r.cap] = x, !.tail = @ + 1])

PutHead(r, x) ==
    LET r1 == IF r.head = 0
              THEN [r EXCEPT !.head = @ + r.cap, !.tail = @ + r.cap] ELSE r
        r2 == [r1 EXCEPT !.head = @ - 1]
    IN Unwrap([r2 EXCEPT !.data[r2.head % r2.cap] = x])

Reset(r) == IF r.head = r.tail THEN [r EXCEPT !.head = 0, !.tail = 0] ELSE r

Cur == [data |-> data, head |-> head, tail |-> tail, cap |-> cap]

Abstract(op, x) ==
    LET a == Apply(abs, op, x, 2 * abs.cap) IN
    /\ abs' = a.s /\ absr' = a.r /\ absv' = a.v

DoPush(op) ==
    /\ next <= MaxVal
    /\ (Sz = cap) => (2 * cap <= MaxCap)
    /\ Install(IF op = "push" THEN PutTail(Room, next) ELSE PutHead(Room, next))
    /\ lastr' = 1 /\ lastv' = 0
    /\ Abstract(op, next)
    /\ next' = next + 1

DoPushLimit(op) ==
    /\ next <= MaxVal
    /\ IF Sz >= cap
       THEN Install(Cur) /\ lastr' = 0
       ELSE Install(IF op = "pushl" THEN PutTail(Cur, next) ELSE PutHead(Cur, next)) /\ lastr' = 1
    /\ lastv' = 0
    /\ Abstract(op, next)
    /\ next' = next + 1

DoPop ==
    /\ IF Sz = 0 THEN Install(Cur) /\ lastr' = 0 /\ lastv' = 0
       ELSE Install(Reset([Cur EXCEPT !.head = @ + 1])) /\ lastr' = 1 /\ lastv' = At(head)
    /\ Abstract("pop", 0) /\ UNCHANGED next

DoPopTail ==
    /\ IF Sz = 0 THEN Install(Cur) /\ lastr' = 0 /\ lastv' = 0
       ELSE Install(Reset([Cur EXCEPT !.tail = @ - 1])) /\ lastr' = 1 /\ lastv' = At(tail - 1)
    /\ Abstract("popt", 0) /\ UNCHANGED next

(* Items are recycled so that positions can run far in a finite model. *)
Recycle == next > MaxVal /\ next' = 1 /\ UNCHANGED <<data, head, tail, cap, abs, lastr, lastv, absr, absv>>

Next == \/ \E op \in {"push", "pushh"} : DoPush(op)
        \/ \E op \in {"pushl", "pushhl"} : DoPushLimit(op)
        \/ DoPop \/ DoPopTail \/ Recycle

Spec == Init /\ [][Next]_vars

Refines == /\ Contents = abs.q
           /\ cap = abs.cap
           /\ lastr = absr /\ lastv = absv
InRange == head <= tail /\ Sz <= cap /\ tail < Far + 2 * cap
=============================================================================
