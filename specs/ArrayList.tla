----------------------------- MODULE ArrayList -----------------------------
(* A list value: l.q its elements, l.cap its capacity, l.blk its growth step  *)
(* (0: may not grow).  Elements are codes 1000*kind + payload: kind 1 integer,*)
(* 2 double, 3 string; Nil is 0.  Result: [l |-> list, r |-> status].         *)
EXTENDS Integers, Sequences

Nil == 0
OK == 0
ERR_ALLOC == 1
ERR_MAX == 2
ERR_INDEX == 3

New(c, b) == [q |-> <<>>, cap |-> c, blk |-> b]
Ret(l, r) == [l |-> l, r |-> r]
Kind(x) == x \div 1000
Payload(x) == x % 1000
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* A list that may not grow holds at most cap elements. *)
Fits(l, n) == l.blk > 0 \/ n <= l.cap
With(l, q) == Ret([l EXCEPT !.q = q], OK)
Nils(n) == [k \in 1 .. n |-> Nil]

(* ix is a position counted from 0 *)
Set(l, ix, x) ==
    IF ~ Fits(l, ix + 1) THEN Ret(l, ERR_MAX)
    ELSE IF ix < Len(l.q) THEN With(l, [l.q EXCEPT ![ix + 1] = x])
    ELSE With(l, l.q \o Nils(ix - Len(l.q)) \o <<x>>)

Insert(l, ix, x) ==
    IF ~ Fits(l, Max(Len(l.q), ix) + 1) THEN Ret(l, ERR_MAX)
    ELSE IF ix <= Len(l.q) THEN With(l, SubSeq(l.q, 1, ix) \o <<x>> \o SubSeq(l.q, ix + 1, Len(l.q)))
    ELSE With(l, l.q \o Nils(ix - Len(l.q)) \o <<x>>)

AppendTo(l, x) == Insert(l, Len(l.q), x)
Prepend(l, x) == Insert(l, 0, x)

Remove(l, ix) ==
    IF ix >= Len(l.q) THEN Ret(l, ERR_INDEX)
    ELSE With(l, SubSeq(l.q, 1, ix) \o SubSeq(l.q, ix + 2, Len(l.q)))
Trim(l, ix) == IF ix >= Len(l.q) THEN Ret(l, ERR_INDEX) ELSE With(l, SubSeq(l.q, 1, ix))
Concat(l, m) == IF ~ Fits(l, Len(l.q) + Len(m.q)) THEN Ret(l, ERR_MAX) ELSE With(l, l.q \o m.q)

(* derived lists are exactly as large as needed and keep the growth step *)
Derived(l, q) == [q |-> q, cap |-> Len(q), blk |-> l.blk]
Drop(l, n) == Derived(l, SubSeq(l.q, Min(n, Len(l.q)) + 1, Len(l.q)))
Take(l, n) == Derived(l, SubSeq(l.q, 1, Min(n, Len(l.q))))

Get(l, ix) == IF ix < Len(l.q) THEN l.q[ix + 1] ELSE -1      \* -1: no element
GetAs(l, ix, kind, none) ==
    IF ix < Len(l.q) /\ l.q[ix + 1] # Nil /\ Kind(l.q[ix + 1]) = kind THEN Payload(l.q[ix + 1]) ELSE none

Edit(l, m, op, ix, x) ==
    CASE op = "set"  -> Set(l, ix, x)
      [] op = "ins"  -> Insert(l, ix, x)
      [] op = "app"  -> AppendTo(l, x)
      [] op = "pre"  -> Prepend(l, x)
      [] op = "rem"  -> Remove(l, ix)
      [] op = "trim" -> Trim(l, ix)
      [] op = "cat"  -> Concat(l, m)
=============================================================================
