------------------------------- MODULE Deque -------------------------------
(* Abstract queue of items: a finite sequence with operations at both ends.  *)
(* cap is the capacity that bounded pushes respect, total the number of       *)
(* reservations.  Every operation maps a state to [s |-> new state,           *)
(* r |-> success, v |-> popped item].                                         *)
EXTENDS Naturals, Sequences

Fresh(c) == [q |-> <<>>, cap |-> c, total |-> 0]

Size(s) == Len(s.q)
Front(q) == SubSeq(q, 1, Len(q) - 1)

Ok(s) == [s |-> s, r |-> 1, v |-> 0]
No(s) == [s |-> s, r |-> 0, v |-> 0]

(* Unbounded pushes grow a full queue; the new capacity is newcap > cap. *)
Grown(s, newcap) == IF Size(s) = s.cap THEN [s EXCEPT !.cap = newcap] ELSE s

PushTail(s, x) == [s EXCEPT !.q = Append(@, x)]
PushHead(s, x) == [s EXCEPT !.q = <<x>> \o @]

Push(s, x, newcap)     == Ok(PushTail(Grown(s, newcap), x))
PushH(s, x, newcap)    == Ok(PushHead(Grown(s, newcap), x))
PushLimit(s, x)        == IF Size(s) < s.cap THEN Ok(PushTail(s, x)) ELSE No(s)
PushHLimit(s, x)       == IF Size(s) < s.cap THEN Ok(PushHead(s, x)) ELSE No(s)

Pop(s) == IF s.q = <<>> THEN No(s)
          ELSE [s |-> [s EXCEPT !.q = Tail(@)], r |-> 1, v |-> Head(s.q)]
PopTail(s) == IF s.q = <<>> THEN No(s)
              ELSE [s |-> [s EXCEPT !.q = Front(@)], r |-> 1, v |-> s.q[Len(s.q)]]

Incr(s) == IF s.total < s.cap THEN Ok([s EXCEPT !.total = @ + 1]) ELSE No(s)
Decr(s) == Ok([s EXCEPT !.total = @ - 1])

Apply(s, op, x, newcap) ==
    CASE op = "push"   -> Push(s, x, newcap)
      [] op = "pushh"  -> PushH(s, x, newcap)
      [] op = "pushl"  -> PushLimit(s, x)
      [] op = "pushhl" -> PushHLimit(s, x)
      [] op = "pop"    -> Pop(s)
      [] op = "popt"   -> PopTail(s)
      [] op = "incr"   -> Incr(s)
      [] op = "decr"   -> Decr(s)

Grows(s, op) == op \in {"push", "pushh"} /\ Size(s) = s.cap
=============================================================================
