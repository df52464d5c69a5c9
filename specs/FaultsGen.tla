----------------------------- MODULE FaultsGen -----------------------------
(* Histories on one container; the driver runs each with every single         *)
(* allocation failing in turn.                                                *)
EXTENDS Faults, TLC, Json
CONSTANTS Depth, Random, Kinds
VARIABLES s, h
Z == [o |-> "", k |-> "", a |-> 0, b |-> 0, t |-> 0]
E(o, a, b, t) == [Z EXCEPT !.o = o, !.a = a, !.b = b, !.t = t]
N == Len(h)
Makes(k) == {[E("make", c[1], c[2], 0) EXCEPT !.k = k] : c \in
    CASE IsList(k) -> {<<0, 1>>, <<1, 1>>, <<2, 3>>, <<2, 0>>, <<0, 4>>}
      [] IsMap(k) -> {<<0, 0>>, <<9, 0>>}
      [] IsQueue(k) -> {<<1, 0>>, <<2, 0>>, <<3, 0>>}
      [] k = "w" -> {<<3, 0>>}
      [] IsBytes(k) -> {<<0, 0>>, <<2, 0>>}
      [] k = "p" -> {<<0, 64>>, <<16, 64>>}}
Sizes == 0 .. Smaller(Len(s.q) + 1, 4)
Calls ==
    CASE IsList(s.k) ->
           {E(o, i, N, t) : o \in {"ins", "set"}, i \in {0, Len(s.q), Len(s.q) + 2}, t \in 0 .. 3}
           \cup {E(o, 0, N, t) : o \in {"app", "pre"}, t \in 0 .. 3}
           \cup {E("cat", n, 0, 0) : n \in {1, 3}}
           \cup {E(o, n, 0, 0) : o \in {"rem", "trim"}, n \in {0, 1}}
           \cup {E(o, n, 0, 0) : o \in {"take", "drop"}, n \in {0, 1, 2}}
           \cup {E("iter", 0, 0, 0)} \cup (IF s.q # <<>> THEN {E("tail", 0, 0, 0)} ELSE {})
      [] IsMap(s.k) ->
           {E("mset", k, N, 0) : k \in 1 .. 3} \cup {E("mset", 100 + k, N, t) : k \in 1 .. 2, t \in 1 .. 4}
           \cup {E("mrem", k, 0, 0) : k \in {1, 2, 101}} \cup {E(o, 0, 0, 0) : o \in {"mclr", "each", "iter"}}
           \cup (IF s.big = 0 THEN {E("bulk", n, 0, 0) : n \in {8, 2000}} ELSE IF s.big = 1 /\ s.z = 2000 THEN {E("bulk", n, 0, 0) : n \in {997, 999}} ELSE {})
      [] IsQueue(s.k) ->
           {E(o, 0, N, 0) : o \in {"push", "push_head", "pop"}}
           \cup (IF s.k = "Q" THEN {E("pusl", 0, N, 0), E("pusu", 0, N, 0), E("pusu", 0, 1, 0)} \cup {E("pusi", i, N, 0) : i \in {0, 1, 9}} ELSE {E("popt", 0, 0, 0)})
      [] IsBytes(s.k) ->
           {E("room", n, r, 0) : n \in {1, 4, 9, 40}, r \in {0, 1}} \cup {E("bapp", n, N, 0) : n \in {1, 2, 8}}
      [] s.k = "p" -> {E("get", n, 0, 0) : n \in {0, 1}} \cup (IF s.held > 0 THEN {E("put", 0, 0, 0)} ELSE {}) \cup (IF s.q = <<0>> THEN {E("fill", 64, 0, 0)} ELSE {})
Pick(cs) == LET o == RandomElement({e.o : e \in cs}) IN RandomElement({e \in cs : e.o = o})
Init == /\ \E k \in Kinds : \E e \in Makes(k) : h = <<e>> /\ s = Effect(Nothing, e).s
Next == /\ Len(h) < Depth
        /\ \E e \in (IF Random THEN {Pick(Calls)} ELSE Calls) : h' = Append(h, e) /\ s' = Effect(s, e).s
Emit == Len(h) = Depth => PrintT("@@" \o ToJson(h))
=============================================================================
