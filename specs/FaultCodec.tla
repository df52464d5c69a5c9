----------------------------- MODULE FaultCodec -----------------------------
(* What a call that turns values into bytes or text, or back, may answer when *)
(* one of the allocations it makes fails: its complete result, or a refusal.  *)
(* A refusal needs a failure to explain it. Either way nothing stays          *)
(* allocated and what it was given is as before.                              *)
EXTENDS Msgpack

(* what is being worked on: two values and their encodings *)
Work(v, u) == LET a == Norm(v) c == Norm(u) IN
    [v |-> a, u |-> c, b |-> Encode(a), c |-> Encode(c)]
(* the same, known only by the encodings *)
WorkOf(b, c) == LET a == Decode(b, 1).v d == Decode(c, 1).v IN
    [v |-> a, u |-> d, b |-> b, c |-> c]
Nothing == [v |-> 0, u |-> 0, b |-> <<>>, c |-> <<>>]

Answered(e) == e.r = 0
Allowed(e) == (e.r # 0 => e.hit = 1) /\ e.lv = 0
=============================================================================
