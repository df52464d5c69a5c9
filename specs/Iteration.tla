----------------------------- MODULE Iteration -----------------------------
(* Visiting a fixed sequence of n elements, numbered 1..n, with independent   *)
(* cursors and with callbacks that may refuse. Element 0 means "nothing".     *)
EXTENDS Naturals, Sequences
HasNext(n, p) == p < n
NextItem(n, p) == IF p < n THEN p + 1 ELSE 0
Advance(n, p) == IF p < n THEN p + 1 ELSE p
(* A callback that refuses its k-th call (0: never): elements seen, verdict.  *)
Seen(n, k) == IF k = 0 \/ k > n THEN n ELSE k
Complete(n, k) == k = 0 \/ k > n
=============================================================================
