------------------------------ MODULE SpinLock ------------------------------
(* Locks that are waited for by spinning.  Kind 0 has one holder at a time;   *)
(* kind 1 has either one writer or any number of readers.  The protected data *)
(* is the number of changes made so far; whoever holds the lock sees it.      *)
(* s = [w |-> holders for writing, r |-> holders for reading, d |-> changes]  *)
EXTENDS Integers, FiniteSets
Fresh == [w |-> {}, r |-> {}, d |-> 0]
Idle == "none"
CanTake(s, f) == IF f = "r" THEN s.w = {} ELSE s.w = {} /\ s.r = {}
Take(s, t, f) == IF f = "r" THEN [s EXCEPT !.r = @ \cup {t}] ELSE [s EXCEPT !.w = @ \cup {t}, !.d = @ + 1]
Give(s, t) == [s EXCEPT !.w = @ \ {t}, !.r = @ \ {t}]
Exclusive(s) == Cardinality(s.w) <= 1 /\ (s.w # {} => s.r = {})
=============================================================================
