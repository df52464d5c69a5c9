------------------------------- MODULE Source -------------------------------
(* Random material: the source produces bytes at positions 257, 258, ...; a   *)
(* byte is handed out at most once.  Material is given as runs <<from, len>>. *)
EXTENDS Integers, Sequences

Largest == 8191   \* longest request that must be served

NewSource == [made |-> 257, used |-> {}]
Produced(s, n) == [s EXCEPT !.made = @ + n]

Apart(a, b) == a[1] + a[2] <= b[1] \/ b[1] + b[2] <= a[1]
Within(s, a) == a[1] >= 257 /\ a[1] + a[2] <= s.made
Fresh(s, runs) == /\ \A k \in 1 .. Len(runs) : Within(s, runs[k]) /\ \A u \in s.used : Apart(runs[k], u)
                  /\ \A j, k \in 1 .. Len(runs) : j < k => Apart(runs[j], runs[k])
Use(s, runs) == [s EXCEPT !.used = @ \cup {runs[k] : k \in 1 .. Len(runs)}]

RECURSIVE Length(_)
Length(runs) == IF runs = <<>> THEN 0 ELSE runs[1][2] + Length(Tail(runs))
=============================================================================
