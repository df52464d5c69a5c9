--------------------------- MODULE PrintableLaws ---------------------------
(* Every value of a small universe: leaves of every kind, containers of them, *)
(* containers of those. The printable forms are emitted for replay.           *)
EXTENDS Printable, TLC, Json
CONSTANTS Deep
VARIABLE x
Leaves == {[t |-> "nil"], [t |-> "bool", v |-> 1], [t |-> "int", w |-> <<65535, 65535, 65535, 65528>>],
           [t |-> "dbl", w |-> <<49160, 0, 0, 0>>], [t |-> "str", b |-> <<>>], [t |-> "str", b |-> <<97, 34>>],
           [t |-> "geo", b |-> <<123, 125>>], [t |-> "bin", k |-> 4, b |-> <<>>], [t |-> "bin", k |-> 4, b |-> <<10, 171>>],
           [t |-> "wild"], [t |-> "inf"]}
Few == {[t |-> "nil"], [t |-> "str", b |-> <<97>>], [t |-> "bin", k |-> 4, b |-> <<>>], [t |-> "int", w |-> <<0, 0, 0, 7>>]}
Keys == {[t |-> "int", w |-> <<0, 0, 0, 5>>], [t |-> "str", b |-> <<>>], [t |-> "bin", k |-> 4, b |-> <<>>]}
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
MapsOf(S) == UNION {{[t |-> "map", f |-> 0, e |-> Sorted([k \in 1 .. Cardinality(K) |->
                        LET o == CHOOSE s \in [1 .. Cardinality(K) -> K] : \A p, q \in 1 .. Cardinality(K) : p # q => s[p] # s[q]
                        IN <<o[k], g[o[k]]>>])] : g \in [K -> S]} : K \in SUBSET Keys}
Containers(S, n) == {[t |-> "list", f |-> 0, e |-> s] : s \in Seqs(S, n)}
                    \cup {[t |-> "pair", e |-> s] : s \in [1 .. 2 -> S \cup {[t |-> "none"]}]}
Level1 == Containers(Leaves, 2) \cup MapsOf(Few)
Level1Few == Containers({[t |-> "bin", k |-> 4, b |-> <<>>], [t |-> "int", w |-> <<0, 0, 0, 7>>]}, 2) \cup MapsOf({[t |-> "str", b |-> <<97>>]})
Level2 == Containers(Level1Few, Deep) \cup MapsOf({v \in Level1Few : v.t # "map"} )
Init == x \in Leaves \cup Level1 \cup (IF Deep > 0 THEN Level2 ELSE {})
Next == FALSE /\ x' = x
(* brackets surround containers, and a container's text contains that of its parts *)
Occurs(a, b) == \E k \in 0 .. (Len(b) - Len(a)) : SubSeq(b, k + 1, k + Len(a)) = a
Laws == Own(x) =>
    /\ x.t \in {"list", "pair"} => \A k \in 1 .. Len(x.e) : Occurs(Inside(x.e[k]), Text(x))
    /\ x.t = "map" => \A k \in 1 .. Len(x.e) : Occurs(Inside(x.e[k][1]) \o <<58>> \o Inside(x.e[k][2]), Text(x))
Emit == PrintT("@@" \o ToJson([v |-> x, own |-> Own(x), w |-> IF Own(x) THEN Text(x) ELSE <<>>]))
=============================================================================
