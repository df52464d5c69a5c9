----------------------------- MODULE OrderLaws -----------------------------
(* The order of values is total: every pair of a small universe, against      *)
(* every third value. Each pair is emitted with its order for replay.         *)
EXTENDS Msgpack, TLC, Json
CONSTANTS Rich
VARIABLE x
I(n) == [t |-> "int", w |-> IF n >= 0 THEN <<0, 0, 0, n>> ELSE Neg(<<0, 0, 0, 0 - n>>)]
S(b) == [t |-> "str", b |-> b]
D(a, d) == [t |-> "dbl", w |-> <<a, 0, 0, d>>]
L(s) == [t |-> "list", f |-> 0, e |-> s]
M(s) == [t |-> "map", f |-> 0, e |-> s]
B(b) == [t |-> "bin", k |-> 4, b |-> b]
Nil == [t |-> "nil"]
Leaves == {Nil, [t |-> "bool", v |-> 0], [t |-> "bool", v |-> 1], I(0), I(1), I(0 - 1), I(200), I(0 - 200),
           [t |-> "int", w |-> <<32768, 0, 0, 0>>], [t |-> "int", w |-> <<32767, 65535, 65535, 65535>>],
           [t |-> "int", w |-> <<0, 1, 0, 0>>], [t |-> "int", w |-> <<65535, 65534, 65535, 65535>>],
           S(<<>>), S(<<97>>), S(<<97, 97>>), S(<<98>>), S(<<200>>), B(<<>>), B(<<0>>), B(<<0, 0>>), B(<<200>>),
           D(0, 0), D(0, 1), D(32768, 1), D(16368, 0), D(49136, 0), D(16368, 1), D(32752, 0), D(65520, 0),
           [t |-> "geo", b |-> <<97>>], [t |-> "geo", b |-> <<97, 98>>], [t |-> "inf"]}
Inner == {Nil, I(1), I(200), S(<<97>>)}
Containers == {L(s) : s \in UNION {[1 .. k -> Inner] : k \in 0 .. 2}}
   \cup {M(<<>>)} \cup {M(<<<<k, v>>>>) : k \in {I(1), I(2), S(<<97>>)}, v \in {Nil, I(1)}}
   \cup {M(<<<<I(1), v>>, <<k, u>>>>) : k \in {I(2), S(<<97>>)}, v \in {Nil, I(1)}, u \in {I(1), S(<<>>)}}
Nested == {L(<<c>>) : c \in {L(<<>>), L(<<I(1)>>), L(<<I(1), I(1)>>), M(<<>>), M(<<<<I(1), I(1)>>>>), M(<<<<I(1), Nil>>>>)}}
   \cup {M(<<<<I(1), c>>>>) : c \in {L(<<>>), L(<<I(1)>>), M(<<>>), M(<<<<I(1), I(1)>>>>)}}
Univ == Leaves \cup Containers \cup Nested
Wildly == {[t |-> "wild"], L(<<[t |-> "wild"]>>), L(<<I(1), [t |-> "wild"]>>), L(<<I(1), [t |-> "wild"], I(5)>>),
           M(<<<<I(1), [t |-> "wild"]>>>>), M(<<<<I(1), [t |-> "wild"]>>, <<I(2), I(9)>>>>), L(<<L(<<[t |-> "wild"]>>), I(1)>>),
           L(<<L(<<[t |-> "wild"]>>), I(2)>>), L(<<L(<<I(1), I(2)>>), I(1)>>)}
Pairs == (Univ \X Univ) \cup (Wildly \X (Univ \cup Wildly)) \cup (Univ \X Wildly)
Init == x \in Pairs
Next == FALSE /\ x' = x
Laws == x \in Univ \X Univ =>
    LET c == Cmp(x[1], x[2]) IN
    /\ Cmp(x[2], x[1]) = 0 - c
    /\ (c = 0) = (x[1] = x[2])
    /\ (Rich => \A u \in Univ : c <= 0 /\ Cmp(x[2], u) <= 0 => Cmp(x[1], u) <= 0)
(* wrapping both values alike, any number of times, does not change the order *)
RECURSIVE Chain(_, _, _)
Chain(k, n, b) == IF n = 0 THEN b ELSE (CASE k = 0 -> <<145>> [] k = 1 -> <<129, 1>> [] k = 2 -> <<129, 161, 3>>) \o Chain(k, n - 1, b)
Chains == \A k \in 0 .. 2, n \in {1, 3} :
    LET a == Chain(k, n, Encode(x[1]))
        c == Chain(k, n, Encode(x[2]))
    IN /\ ~ Wild(x[1]) /\ ~ Wild(x[2]) => Cmp(View(a, 1).v, View(c, 1).v) = Cmp(x[1], x[2])
       /\ Skip(a, 1) = n * (k + 1) + Len(Encode(x[1])) + 1
Emit == PrintT("@@" \o ToJson([a |-> x[1], c |-> x[2], r |-> Cmp(x[1], x[2]) + 1]))
=============================================================================
