----------------------------- MODULE EditQueue -----------------------------
(* The general queue as an ordered list of items.  A result is                *)
(* [q |-> new list, r |-> status, v |-> item handed out, see |-> items shown  *)
(* to the callback].  vd maps an item to the callback's verdict on it:        *)
(* 0 go on, -1 stop (take), -2 delete and stop (best so far).                 *)
EXTENDS Integers, Sequences

OK == 0
ERR == -1
EMPTY == -2
Nothing == 0

Ret(q, r, v, see) == [q |-> q, r |-> r, v |-> v, see |-> see]
Del(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Ins(q, k, x) == SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
Member(q, x) == \E k \in 1 .. Len(q) : q[k] = x

Push(q, x) == Ret(Append(q, x), OK, Nothing, <<>>)
PushHead(q, x) == Ret(<<x>> \o q, OK, Nothing, <<>>)
PushLimit(q, x, lim) == IF Len(q) < lim THEN Ret(Append(q, x), 1, Nothing, <<>>) ELSE Ret(q, 0, Nothing, <<>>)
PushIndex(q, x, ix) == Ret(IF ix >= Len(q) THEN Append(q, x) ELSE Ins(q, ix, x), OK, Nothing, <<>>)
PushUnique(q, x) == IF Member(q, x) THEN Ret(q, -2, Nothing, <<>>) ELSE Push(q, x)
Peek(q) == IF q = <<>> THEN Ret(q, EMPTY, Nothing, <<>>) ELSE Ret(q, OK, Head(q), <<>>)
Pop(q) == IF q = <<>> THEN Ret(q, EMPTY, Nothing, <<>>) ELSE Ret(Tail(q), OK, Head(q), <<>>)

(* index at which a visit in the order ord (a sequence of indices) stops *)
RECURSIVE StopAt(_, _, _, _)
StopAt(q, ord, k, stops) ==
    IF k > Len(ord) THEN 0 ELSE IF stops[q[ord[k]]] THEN k ELSE StopAt(q, ord, k + 1, stops)

Up(q) == [k \in 1 .. Len(q) |-> k]
Down(q) == [k \in 1 .. Len(q) |-> Len(q) + 1 - k]

Visit(q, vd, ord) ==
    LET st == [x \in DOMAIN vd |-> vd[x] # 0]
        k == StopAt(q, ord, 1, st)
        n == IF k = 0 THEN Len(ord) ELSE k
        see == [j \in 1 .. n |-> q[ord[j]]] IN
    IF k # 0 /\ vd[q[ord[k]]] = -2
    THEN Ret(Del(q, ord[k]), OK, Nothing, see)
    ELSE Ret(q, OK, Nothing, see)

Reduce(q, vd) == Visit(q, vd, Up(q))
ReduceRev(q, vd) == Visit(q, vd, Down(q))

(* Pop of the best match: the first item judged -1, else the last one judged *)
(* -2, else the head.                                                        *)
ReducePop(q, vd) ==
    IF q = <<>> THEN Ret(q, EMPTY, Nothing, <<>>)
    ELSE LET st == [x \in DOMAIN vd |-> vd[x] = -1]
             k == StopAt(q, Up(q), 1, st)
             n == IF k = 0 THEN Len(q) ELSE k
             cand == {j \in 1 .. n : vd[q[j]] = -2}
             best == IF k # 0 THEN k
                     ELSE IF cand # {} THEN CHOOSE j \in cand : \A i \in cand : i <= j
                     ELSE 1 IN
         Ret(Del(q, best), OK, q[best], SubSeq(q, 1, n))

DeleteOne(q, x) ==
    IF ~ Member(q, x) THEN Ret(q, EMPTY, Nothing, <<>>)
    ELSE LET k == CHOOSE k \in 1 .. Len(q) : q[k] = x /\ \A j \in 1 .. (k - 1) : q[j] # x IN
         Ret(Del(q, k), OK, Nothing, <<>>)

DeleteEvery(q, x) ==
    IF ~ Member(q, x) THEN Ret(q, EMPTY, Nothing, <<>>)
    ELSE Ret(SelectSeq(q, LAMBDA y : y # x), OK, Nothing, <<>>)

Clear(q) == IF q = <<>> THEN Ret(q, EMPTY, Nothing, <<>>) ELSE Ret(<<>>, OK, Nothing, <<>>)
(* deleting only one item with no pattern removes the head *)
ClearOne(q) == IF q = <<>> THEN Ret(q, EMPTY, Nothing, <<>>) ELSE Ret(Tail(q), OK, Nothing, <<>>)

Apply(q, op, x, a, vd) ==
    CASE op = "push"   -> Push(q, x)
      [] op = "pushh"  -> PushHead(q, x)
      [] op = "pushl"  -> PushLimit(q, x, a)
      [] op = "pushi"  -> PushIndex(q, x, a)
      [] op = "pushu"  -> PushUnique(q, x)
      [] op = "peek"   -> Peek(q)
      [] op = "pop"    -> Pop(q)
      [] op = "red"    -> Reduce(q, vd)
      [] op = "redr"   -> ReduceRev(q, vd)
      [] op = "redp"   -> ReducePop(q, vd)
      [] op = "del1"   -> DeleteOne(q, x)
      [] op = "dela"   -> DeleteEvery(q, x)
      [] op = "clear"  -> Clear(q)
      [] op = "clear1" -> ClearOne(q)
=============================================================================
