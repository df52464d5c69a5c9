------------------------------ MODULE Directory -----------------------------
(* Reading the names in a directory.  A reading gives every name that was     *)
(* there all the time exactly once, then the end for good; names made or      *)
(* removed meanwhile may or may not be given, at most once.                   *)
EXTENDS Integers, Sequences, FiniteSets
Always == {".", ".."}
Fresh == [files |-> {}, dirs |-> {}]
Present(s) == Always \cup s.files \cup s.dirs
Appears(r, n) == [r EXCEPT !.may = @ \cup {n}]
Vanishes(r, n) == [r EXCEPT !.must = @ \ {n}, !.may = IF n \in r.must THEN @ \cup {n} ELSE @]
CanGive(r, n) == ~ r.done /\ n \in r.must \cup r.may
Given(r, n) == [r EXCEPT !.must = @ \ {n}, !.may = @ \ {n}]
CanEnd(r) == r.done \/ r.must = {}
=============================================================================
