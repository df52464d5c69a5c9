------------------------------- MODULE Vector -------------------------------
(* Dynamic array of items; ZeroItem is the all-zero item.                     *)
EXTENDS Integers, Sequences
ZeroItem == 0
Ret(q, r) == [q |-> q, r |-> r]
Del(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Member(q, x) == \E k \in 1 .. Len(q) : q[k] = x

Apply(q, op, x, ix) ==
    CASE op = "app" -> Ret(Append(q, x), 1)
      [] op = "uni" -> IF Member(q, x) THEN Ret(q, 0) ELSE Ret(Append(q, x), 1)
      [] op = "res" -> Ret(Append(q, ZeroItem), 1)
      [] op = "set" -> Ret([q EXCEPT ![ix + 1] = x], 1)
      [] op = "rem" -> IF ix < Len(q) THEN Ret(Del(q, ix + 1), 1) ELSE Ret(q, 0)
      [] op = "clr" -> Ret(<<>>, 1)
      [] op = "grow" -> Ret(q, 1)
=============================================================================
