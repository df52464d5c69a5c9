---------------------------- MODULE MsgpackLaws ----------------------------
(* Every value of a universe around the width boundaries; the laws relate     *)
(* encoding, decoding, measuring and peeking to each other. Encodings are     *)
(* emitted for replay in both directions.                                     *)
EXTENDS Msgpack, TLC, Json
CONSTANTS MaxDeep, Rich
VARIABLE x
I(n) == [t |-> "int", w |-> IF n >= 0 THEN <<0, 0, n \div 65536, n % 65536>> ELSE Neg(<<0, 0, (0 - n) \div 65536, (0 - n) % 65536>>)]
W(a, b, c, d) == [t |-> "int", w |-> <<a, b, c, d>>]
Ints == {I(n) : n \in {0, 1, 2, 23, 31, 32, 33, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 2147483646, 2147483647}}
        \cup {I(0 - n) : n \in {1, 2, 31, 32, 33, 34, 127, 128, 129, 130, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 2147483646, 2147483647}}
        \cup {W(a, b, c, d) : a \in {0, 32767, 32768, 65535}, b \in {0, 1, 65535}, c \in {0, 32767, 32768, 65535}, d \in {0, 1, 65535}}
Fill(n) == [k \in 1 .. n |-> 97 + (k % 26)]
Lens == {0, 1, 2, 29, 30, 31, 32, 33, 253, 254, 255, 256, 257}
Raws == {[t |-> tt, b |-> Fill(n)] : tt \in {"str", "geo"}, n \in Lens}
        \cup {[t |-> "bin", k |-> k, b |-> Fill(n)] : k \in {0, 1, 4, 20, 24, 255}, n \in Lens}
        \cup {[t |-> "bin", k |-> 4, b |-> <<0, 255, 3, 0>>]}
Dbls == {[t |-> "dbl", w |-> <<a, b, 0, d>>] : a \in {0, 32768, 16368, 49136, 32752, 65520, 1, 32751}, b \in {0}, d \in {0, 1}}
Basic == {[t |-> "nil"], [t |-> "bool", v |-> 0], [t |-> "bool", v |-> 1]}
Leaves == Ints \cup Raws \cup {d \in Dbls : ~ NaN(d.w)} \cup Basic
Few == {I(0), I(0 - 33), [t |-> "str", b |-> <<>>], [t |-> "str", b |-> Fill(31)], [t |-> "bin", k |-> 4, b |-> <<>>], [t |-> "nil"],
        [t |-> "dbl", w |-> <<16368, 0, 0, 0>>]}
Keys == {I(5), I(0 - 1), [t |-> "str", b |-> <<>>], [t |-> "bin", k |-> 4, b |-> <<97>>]}
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
RECURSIVE OrderSet(_)
OrderSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE s \in S : \A u \in S : Cmp(s, u) <= 0 IN <<m>> \o OrderSet(S \ {m})
MapsOf(S) == UNION {{[t |-> "map", f |-> f, e |-> [k \in 1 .. Cardinality(K) |-> <<OrderSet(K)[k], g[OrderSet(K)[k]]>>]] : g \in [K -> S]}
                    : K \in {K \in SUBSET Keys : Cardinality(K) <= 2}, f \in {0, 1, 3}}
ListsOf(S, n) == {[t |-> "list", f |-> 0, e |-> s] : s \in Seqs(S, n)}
Sized == {[t |-> "list", f |-> 0, e |-> [k \in 1 .. n |-> I(k)]] : n \in {14, 15, 16, 17}}
         \cup {[t |-> "map", f |-> f, e |-> [k \in 1 .. n |-> <<I(k), [t |-> "nil"]>>]] : n \in {13, 14, 15, 16, 17}, f \in {0, 1, 3}}
Level1 == ListsOf(Few, 2) \cup MapsOf({I(0), [t |-> "nil"]}) \cup Sized
Level1Few == ListsOf({I(7), [t |-> "str", b |-> <<97>>]}, 1) \cup {[t |-> "map", f |-> f, e |-> <<<<I(1), I(2)>>>>] : f \in {0, 1}}
Level2 == ListsOf(Level1Few, 2) \cup MapsOf(Level1Few)
RECURSIVE Nest(_, _)
Nest(n, v) == IF n = 0 THEN v ELSE LET u == Nest(n - 1, v) IN
    IF n % 3 = 0 THEN [t |-> "map", f |-> (n \div 3) % 2, e |-> <<<<I(n), u>>>>]
    ELSE [t |-> "list", f |-> 0, e |-> IF n % 3 = 1 THEN <<u>> ELSE <<I(n), u, [t |-> "nil"]>>]
Init == x \in Leaves \cup Level1 \cup (IF Rich THEN Level2 ELSE {}) \cup {Nest(n, [t |-> "str", b |-> <<97>>]) : n \in 1 .. MaxDeep}
Next == FALSE /\ x' = x
E1 == Encode(x)
RoundTrip == LET r == Decode(Encode(x), 1) IN r.ok /\ r.v = x /\ r.n = Len(Encode(x)) + 1
Sizes == Len(Encode(x)) = SizeOf(x)
Measured == Skip(Encode(x), 1) = SizeOf(x) + 1
NoPrefix == LET b == Encode(x) IN \A n \in 0 .. (Len(b) - 1) : LET q == SubSeq(b, 1, n) IN Skip(q, 1) = 0 /\ ~ Decode(q, 1).ok
Peeked == Peek(Encode(x), 1) = Rank(x)
Seen == LET v == View(Encode(x), 1) IN Cmp(v.v, x) = 0 /\ v.n = SizeOf(x) + 1
Emit == PrintT("@@" \o ToJson([v |-> x, b |-> Encode(x)]))
=============================================================================
