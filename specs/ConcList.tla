------------------------------ MODULE ConcList ------------------------------
(* A linked list with its own lock, shared by threads.  Each call takes       *)
(* effect at one moment between its start and its return, and does then what  *)
(* the sequential list does.  Elements 1, 2, ... are there at the start;      *)
(* those from 10 on are brought by the threads.  Element 1 is never removed,  *)
(* the other early ones only by del, the later ones only by reductions.       *)
EXTENDS Integers, Sequences
L == INSTANCE LinkedList

Fill(n) == [k \in 1 .. n |-> k]
Elements(q) == {q[k] : k \in 1 .. Len(q)}
Late(q, v, w) == [y \in Elements(q) |-> IF y >= 10 THEN v ELSE w]

Effect(q, f, x) ==
    CASE f = "pre" -> L!Prepend(q, x)
      [] f = "app" -> L!AppendTo(q, x)
      [] f = "aft" -> L!InsertAfter(q, 1, x)
      [] f = "bef" -> L!InsertBefore(q, 1, x)
      [] f = "del" -> L!Delete(q, x)
      [] f = "redf" -> L!Reduce(q, 1, Late(q, L!DELETE, 0))
      [] f = "redb" -> L!Reduce(q, 0, Late(q, L!DELETE, 0))
      [] f = "seef" -> L!Reduce(q, 1, Late(q, 0, 0))
      [] f = "seeb" -> L!Reduce(q, 0, Late(q, -5, 0))
      [] f = "insf" -> L!InsertReduce(q, 1, x, Late(q, L!INSERT, 0), L!INSERT)
      [] f = "insb" -> L!InsertReduce(q, 0, x, Late(q, L!INSERT, 0), L!INSERT)
      [] f = "srch" -> L!Search(q, 1, Late(q, 3, 4))
      [] f = "size" -> L!Ret(q, <<>>, <<>>, Len(q), 0)

Idle == [f |-> "none"]
Called(f, x) == [f |-> f, x |-> x, done |-> FALSE, out |-> 0]
Pending(p) == p.f # "none" /\ ~ p.done
=============================================================================
