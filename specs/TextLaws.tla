------------------------------ MODULE TextLaws ------------------------------
EXTENDS Text, TLC, Json
CONSTANTS PathLen, CopyLen
VARIABLE x
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == \/ \E p \in Seqs({47, 92, 97, 46}, PathLen) : x = [k |-> "b", t |-> p, n |-> 0, e |-> BaseName(p), cut |-> 0]
        \/ \E n \in 0..CopyLen, size \in 1..(CopyLen + 2) :
             LET t == [j \in 1..n |-> 96 + j] IN
             x = [k |-> "c", t |-> t, n |-> size, e |-> Copy(t, size).t, cut |-> Copy(t, size).cut]
Next == FALSE /\ x' = x
(* A base name has no separator in it unless it is the root, and is its own base name. *)
Laws == x.k = "b" => /\ BaseName(x.e) = x.e /\ x.e # <<>>
                     /\ (\E j \in 1..Len(x.e) : Sep(x.e[j])) => x.e = <<47>>
Emit == PrintT("@@" \o ToJson(x))
=============================================================================
