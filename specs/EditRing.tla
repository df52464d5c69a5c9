------------------------------ MODULE EditRing ------------------------------
(* The ring-buffer algorithms behind the general queue's edit operations      *)
(* (deletion by shifting the shorter side, insertion at an index by moving    *)
(* head or tail, delete of every match in one pass), refining EditQueue.      *)
EXTENDS EditQueue, FiniteSets

CONSTANTS Caps, MaxCap, Items, Far

VARIABLES data, rd, wr, cap, abs, bad
vars == <<data, rd, wr, cap, abs, bad>>

Slots(c) == 0 .. (c - 1)
R == [data |-> data, rd |-> rd, wr |-> wr, cap |-> cap]
Sz(r) == r.wr - r.rd
At(r, p) == r.data[p % r.cap]
Contents(r) == [k \in 1 .. Sz(r) |-> At(r, r.rd + k - 1)]

Init == /\ cap \in Caps /\ data = [k \in Slots(cap) |-> 0] /\ rd = 0 /\ wr = 0
        /\ abs = <<>> /\ bad = FALSE

Room(r) == IF Sz(r) = r.cap
           THEN [data |-> [k \in Slots(2 * r.cap) |-> IF k < r.cap THEN At(r, r.rd + k) ELSE 0],
                 rd |-> 0, wr |-> r.cap, cap |-> 2 * r.cap]
           ELSE r
Unwrap(r) == IF r.wr >= Far THEN [r EXCEPT !.rd = r.rd % r.cap, !.wr = (r.rd % r.cap) + Sz(r)] ELSE r
Put(r, p, x) == [r EXCEPT !.data[p % r.cap] = x]
LiftHead(r) == IF r.rd = 0 THEN [r EXCEPT !.rd = @ + r.cap, !.wr = @ + r.cap] ELSE r

RPush(r0, x) == LET r == Room(r0) IN Unwrap([Put(r, r.wr, x) EXCEPT !.wr = @ + 1])
RPushHead(r0, x) == LET r == LiftHead(Room(r0)) IN Unwrap([Put(r, r.rd - 1, x) EXCEPT !.rd = @ - 1])

(* Move positions lo .. hi one up or one down (as ring positions). *)
ShiftUp(r, lo, hi) ==
    [r EXCEPT !.data = [k \in Slots(r.cap) |->
        IF \E p \in lo .. hi : (p + 1) % r.cap = k
        THEN At(r, CHOOSE p \in lo .. hi : (p + 1) % r.cap = k) ELSE r.data[k]]]
ShiftDown(r, lo, hi) ==
    [r EXCEPT !.data = [k \in Slots(r.cap) |->
        IF \E p \in lo .. hi : (p - 1) % r.cap = k
        THEN At(r, CHOOSE p \in lo .. hi : (p - 1) % r.cap = k) ELSE r.data[k]]]

RPushIndex(r0, x, ix) ==
    LET sz == Sz(r0) r == Room(r0) IN
    IF ix >= sz THEN Unwrap([Put(r, r.wr, x) EXCEPT !.wr = @ + 1])
    ELSE IF ix > sz \div 2
    THEN LET s == ShiftUp(r, r.rd + ix, r.wr - 1) IN Unwrap([Put(s, r.rd + ix, x) EXCEPT !.wr = @ + 1])
    ELSE LET l == LiftHead(r)
             s == ShiftDown(l, l.rd, l.rd + ix - 1)
             t == IF ix = 0 THEN l ELSE s IN
         Unwrap([Put(t, l.rd - 1 + ix, x) EXCEPT !.rd = @ - 1])

(* Deletion at position p: the part on p's side of the wrap is shifted. *)
RDelete(r, p) ==
    LET ix == p % r.cap ri == r.rd % r.cap wi == r.wr % r.cap IN
    IF ix = ri THEN [r EXCEPT !.rd = @ + 1]
    ELSE IF wi # 0 /\ ix = wi - 1 THEN [r EXCEPT !.wr = @ - 1]
    ELSE IF ix > ri THEN [ShiftUp(r, p - (ix - ri), p - 1) EXCEPT !.rd = @ + 1]
    ELSE [ShiftDown(r, p + 1, r.wr - 1) EXCEPT !.wr = @ - 1]

(* One pass deleting every x; after a tail shift the same position is seen again. *)
RECURSIVE RDelEvery(_, _, _)
RDelEvery(r, p, x) ==
    IF p >= r.wr THEN r
    ELSE IF At(r, p) = x
    THEN LET d == RDelete(r, p) IN RDelEvery(d, IF d.wr # r.wr THEN p ELSE p + 1, x)
    ELSE RDelEvery(r, p + 1, x)

RPop(r) == IF Sz(r) = 0 THEN r
           ELSE LET d == [r EXCEPT !.rd = @ + 1] IN IF d.rd = d.wr THEN [d EXCEPT !.rd = 0, !.wr = 0] ELSE d

Install(r) == data' = r.data /\ rd' = r.rd /\ wr' = r.wr /\ cap' = r.cap

Fits == Sz(R) = cap => 2 * cap <= MaxCap

Do(op, r, x, a) == Install(r) /\ abs' = Apply(abs, op, x, a, [y \in Items |-> 0]).q /\ bad' = bad

Next ==
    \/ \E x \in Items : Fits /\ Do("push", RPush(R, x), x, 0)
    \/ \E x \in Items : Fits /\ Do("pushh", RPushHead(R, x), x, 0)
    \/ \E x \in Items, ix \in 0 .. MaxCap : Fits /\ ix <= Sz(R) /\ Do("pushi", RPushIndex(R, x, ix), x, ix)
    \/ Do("pop", RPop(R), 0, 0)
    \/ \E x \in Items : Do("dela", RDelEvery(R, rd, x), x, 0)
    \/ \E k \in 1 .. MaxCap : /\ k <= Sz(R) /\ Install(RDelete(R, rd + k - 1))
                              /\ abs' = Del(abs, k) /\ bad' = bad

Refines == Contents(R) = abs
InRange == rd <= wr /\ Sz(R) <= cap
=============================================================================
