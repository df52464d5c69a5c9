----------------------------- MODULE ChainModel -----------------------------
(* The pointer algorithms of the doubly linked list (links nxt and prv, both  *)
(* ends, a counter) refining LinkedList, checked exhaustively.                *)
EXTENDS LinkedList, FiniteSets

CONSTANT Elems
VARIABLES nxt, prv, head, tail, sz, abs
vars == <<nxt, prv, head, tail, sz, abs>>
Nil == 0

Init == /\ nxt = [e \in Elems |-> Nil] /\ prv = [e \in Elems |-> Nil]
        /\ head = Nil /\ tail = Nil /\ sz = 0 /\ abs = <<>>

In(e) == \E k \in 1 .. Len(abs) : abs[k] = e

MPrepend(e) ==
    /\ IF head = Nil
       THEN head' = e /\ tail' = e /\ nxt' = [nxt EXCEPT ![e] = Nil] /\ prv' = [prv EXCEPT ![e] = Nil]
       ELSE /\ nxt' = [nxt EXCEPT ![e] = head] /\ prv' = [prv EXCEPT ![e] = Nil, ![head] = e]
            /\ head' = e /\ tail' = tail
    /\ sz' = sz + 1 /\ abs' = Prepend(abs, e).q
MAppend(e) ==
    /\ IF head = Nil
       THEN head' = e /\ tail' = e /\ nxt' = [nxt EXCEPT ![e] = Nil] /\ prv' = [prv EXCEPT ![e] = Nil]
       ELSE /\ prv' = [prv EXCEPT ![e] = tail] /\ nxt' = [nxt EXCEPT ![e] = Nil, ![tail] = e]
            /\ tail' = e /\ head' = head
    /\ sz' = sz + 1 /\ abs' = AppendTo(abs, e).q
MAfter(c, e) ==
    /\ prv' = IF nxt[c] = Nil THEN [prv EXCEPT ![e] = c] ELSE [prv EXCEPT ![e] = c, ![nxt[c]] = e]
    /\ nxt' = [nxt EXCEPT ![e] = nxt[c], ![c] = e]
    /\ tail' = IF nxt[c] = Nil THEN e ELSE tail
    /\ head' = head /\ sz' = sz + 1 /\ abs' = InsertAfter(abs, c, e).q
MBefore(c, e) ==
    /\ nxt' = IF prv[c] = Nil THEN [nxt EXCEPT ![e] = c] ELSE [nxt EXCEPT ![e] = c, ![prv[c]] = e]
    /\ prv' = [prv EXCEPT ![e] = prv[c], ![c] = e]
    /\ head' = IF prv[c] = Nil THEN e ELSE head
    /\ tail' = tail /\ sz' = sz + 1 /\ abs' = InsertBefore(abs, c, e).q
MDelete(e) ==
    /\ IF sz = 1 THEN head' = Nil /\ tail' = Nil /\ UNCHANGED <<nxt, prv>>
       ELSE IF e = head THEN head' = nxt[e] /\ prv' = [prv EXCEPT ![nxt[e]] = Nil] /\ UNCHANGED <<nxt, tail>>
       ELSE IF e = tail THEN tail' = prv[e] /\ nxt' = [nxt EXCEPT ![prv[e]] = Nil] /\ UNCHANGED <<prv, head>>
       ELSE /\ nxt' = [nxt EXCEPT ![prv[e]] = nxt[e]] /\ prv' = [prv EXCEPT ![nxt[e]] = prv[e]]
            /\ UNCHANGED <<head, tail>>
    /\ sz' = sz - 1 /\ abs' = Delete(abs, e).q

Next == \E e \in Elems :
          \/ ~ In(e) /\ (MPrepend(e) \/ MAppend(e) \/ \E c \in Elems : In(c) /\ (MAfter(c, e) \/ MBefore(c, e)))
          \/ In(e) /\ MDelete(e)

RECURSIVE Walk(_, _, _)
Walk(link, e, n) == IF e = Nil \/ n = 0 THEN <<>> ELSE <<e>> \o Walk(link, link[e], n - 1)
Refines == /\ Walk(nxt, head, Cardinality(Elems) + 1) = abs
           /\ Walk(prv, tail, Cardinality(Elems) + 1) = Rev(abs)
           /\ sz = Len(abs)
=============================================================================
