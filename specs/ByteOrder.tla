----------------------------- MODULE ByteOrder ------------------------------
(* A number is its bytes, most significant first.  Converting it to big       *)
(* endian lays them out in that order, to little endian in the reverse one,   *)
(* and converting back from such a layout gives the number again.             *)
EXTENDS Integers, Sequences
Layout(order, n) == IF order = "be" THEN n ELSE [k \in 1 .. Len(n) |-> n[Len(n) + 1 - k]]
=============================================================================
