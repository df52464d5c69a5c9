-------------------------------- MODULE Refs --------------------------------
(* A shared object with its references counted.  n references exist; the drop *)
(* of the last one, and only that, releases the object.                       *)
EXTENDS Integers, Sequences

NewObject(n) == [n |-> n, by |-> 0, gone |-> FALSE]

(* the effect of thread t's call f, with what a counting form answers *)
Effect(s, t, f) ==
    CASE f = "u" -> [s |-> s, c |-> 0]
      [] f = "r" -> [s |-> [s EXCEPT !.n = @ + 1], c |-> s.n + 1]
      [] f = "d" -> [s |-> [s EXCEPT !.n = @ - 1, !.by = IF s.n = 1 THEN t ELSE @], c |-> s.n - 1]
(* a call needs a reference to work on *)
May(s) == s.n > 0
MayFree(s, t) == s.n = 0 /\ s.by = t /\ ~ s.gone
Freed(s) == [s EXCEPT !.gone = TRUE]
=============================================================================
