----------------------------- MODULE LinkedList -----------------------------
(* A list of distinct elements.  A result is [q |-> list, gone |-> elements   *)
(* handed to the destructor in order, see |-> elements shown to the callback  *)
(* (0 = end of list), r |-> verdict returned, v |-> element found or 0].      *)
EXTENDS Integers, Sequences

Ret(q, gone, see, r, v) == [q |-> q, gone |-> gone, see |-> see, r |-> r, v |-> v]
Pos(q, x) == CHOOSE k \in 1 .. Len(q) : q[k] = x
Without(q, S) == SelectSeq(q, LAMBDA y : y \notin S)
Ins(q, k, x) == SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
Rev(q) == [k \in 1 .. Len(q) |-> q[Len(q) + 1 - k]]

DELETE == 1
INSERT == 2

Prepend(q, x) == Ret(<<x>> \o q, <<>>, <<>>, 0, 0)
AppendTo(q, x) == Ret(Append(q, x), <<>>, <<>>, 0, 0)
InsertAfter(q, c, x) == Ret(Ins(q, Pos(q, c), x), <<>>, <<>>, 0, 0)
InsertBefore(q, c, x) == Ret(Ins(q, Pos(q, c) - 1, x), <<>>, <<>>, 0, 0)
Delete(q, x) == Ret(Without(q, {x}), <<x>>, <<>>, 0, 0)

(* Visit in order ord (a permutation of q) with verdicts vd: element -> verdict *)
RECURSIVE Visit(_, _, _)
Visit(ord, vd, acc) ==
    IF ord = <<>> THEN acc
    ELSE LET x == Head(ord) d == vd[x]
             a1 == [acc EXCEPT !.see = Append(@, x), !.r = d] IN
         IF d < 0 THEN a1
         ELSE IF d = DELETE THEN Visit(Tail(ord), vd, [a1 EXCEPT !.gone = Append(@, x)])
         ELSE Visit(Tail(ord), vd, a1)

Dir(q, fwd) == IF fwd = 1 THEN q ELSE Rev(q)

Reduce(q, fwd, vd) ==
    LET a == Visit(Dir(q, fwd), vd, [see |-> <<>>, gone |-> <<>>, r |-> 0]) IN
    Ret(Without(q, {a.gone[k] : k \in 1 .. Len(a.gone)}), a.gone, a.see, a.r, 0)

(* First element in order with a non-zero verdict; 0 stands for the end. *)
RECURSIVE FirstNonZero(_, _)
FirstNonZero(ord, vd) == IF ord = <<>> THEN 0 ELSE IF vd[Head(ord)] # 0 THEN Head(ord) ELSE FirstNonZero(Tail(ord), vd)

RECURSIVE UpTo(_, _)
UpTo(ord, x) == IF ord = <<>> THEN <<>> ELSE IF Head(ord) = x THEN <<x>> ELSE <<Head(ord)>> \o UpTo(Tail(ord), x)

InsertReduce(q, fwd, x, vd, vend) ==
    LET ord == Dir(q, fwd) f == FirstNonZero(ord, vd) IN
    IF f # 0 THEN
        IF vd[f] = INSERT
        THEN Ret(Ins(q, IF fwd = 1 THEN Pos(q, f) - 1 ELSE Pos(q, f), x), <<>>, UpTo(ord, f), 0, 0)
        ELSE Ret(q, <<>>, UpTo(ord, f), vd[f], 0)
    ELSE IF vend = INSERT
        THEN Ret(IF fwd = 1 THEN Append(q, x) ELSE <<x>> \o q, <<>>, Append(ord, 0), 0, 0)
        ELSE Ret(q, <<>>, Append(ord, 0), vend, 0)

(* Search: the first match in order; the search is given up (no result) at an *)
(* element whose verdict is neither MATCHED (3) nor NOT_MATCHED (4).          *)
Search(q, fwd, vd) ==
    LET ord == Dir(q, fwd)
        f == FirstNonZero(ord, [y \in DOMAIN vd |-> IF vd[y] = 4 THEN 0 ELSE 1]) IN
    IF f = 0 THEN Ret(q, <<>>, ord, 0, 0)
    ELSE Ret(q, <<>>, UpTo(ord, f), 0, IF vd[f] = 3 THEN f ELSE 0)

Index(q, ix) ==
    LET k == IF ix >= 0 THEN ix + 1 ELSE Len(q) + 1 + ix IN
    Ret(q, <<>>, <<>>, 0, IF k \in 1 .. Len(q) THEN q[k] ELSE 0)
=============================================================================
