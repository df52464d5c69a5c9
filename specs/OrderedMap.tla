---------------------------- MODULE OrderedMap ----------------------------
(* The ideal map: a set of (key, value) bindings, one per key, visited in     *)
(* ascending key order. A key is a sequence of naturals: its kind (integer    *)
(* before string before bytes) followed by its content, most significant      *)
(* first, the sign bit of integers flipped; keys are ordered lexicographically*)
(* with a proper prefix first.                                                *)
EXTENDS Integers, Sequences, FiniteSets

NIL == 0          \* stands for the nil value
NONE == -1        \* no value under the key

RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) ==
    IF k > Len(b) THEN FALSE
    ELSE IF k > Len(a) THEN TRUE
    ELSE IF a[k] # b[k] THEN a[k] < b[k]
    ELSE LexLess(a, b, k + 1)
Less(a, b) == LexLess(a, b, 1)

Empty == [k \in {} |-> 0]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Lookup(m, k) == IF k \in DOMAIN m THEN m[k] ELSE NONE
Size(m) == Cardinality(DOMAIN m)

(* Whether ks, vs is the complete visit of m under the order lt. *)
IsVisit(m, ks, vs, lt(_, _)) ==
    /\ Len(ks) = Size(m) /\ Len(vs) = Len(ks)
    /\ \A j \in 1..Len(ks) : ks[j] \in DOMAIN m /\ vs[j] = m[ks[j]]
    /\ \A j \in 1..(Len(ks) - 1) : lt(ks[j], ks[j + 1])
=============================================================================
