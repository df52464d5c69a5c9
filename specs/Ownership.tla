----------------------------- MODULE Ownership -----------------------------
(* Who holds what.  Objects are numbered in the order in which they are made. *)
(* Each has a number of references: those of the caller and one for every     *)
(* slot of a container in which it is stored.  An object whose last reference *)
(* is dropped is released and drops what its slots hold.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

(* kinds: scalars i s b d g t c (heap), S (not from the heap), N T (constants) *)
(* lists l L K, maps m M, pairs p, results r R; L is of fixed size; K, M and R *)
(* are not from the heap                                                      *)
Heap(k) == k \in {"i", "s", "b", "d", "g", "t", "c", "l", "L", "m", "p", "r"}
Const(k) == k \in {"N", "T"}
IsList(k) == k \in {"l", "L", "K"}
IsMap(k) == k \in {"m", "M"}
IsResult(k) == k \in {"r", "R"}

(* an object: kind, references, own: those of the caller; slots: what it      *)
(* holds (0 nothing); cap: how many at most (-1: grows); keys: key values of a   *)
(* map, in step with pairs of slots                                           *)
Object(k) == [k |-> k, refs |-> IF Const(k) THEN 0 ELSE 1, own |-> 1, slots |-> <<>>, keys |-> <<>>,
              cap |-> IF k = "L" THEN 2 ELSE -1]
Empty == <<>>

(* one reference less on each of a sequence of objects; freed collects the    *)
(* heap objects released                                                      *)
RECURSIVE Drop(_, _)
Drop(st, ids) ==
    FoldLeft(LAMBDA a, x :
        IF x = 0 \/ Const(a.o[x].k) THEN a
        ELSE IF a.o[x].refs > 1 THEN [a EXCEPT !.o[x].refs = @ - 1]
        ELSE Drop([a EXCEPT !.o[x].refs = 0, !.o[x].slots = <<>>, !.o[x].keys = <<>>,
                            !.freed = IF Heap(a.o[x].k) THEN @ \cup {x} ELSE @], a.o[x].slots),
        st, ids)
(* one more *)
Hold(st, ids) == FoldLeft(LAMBDA a, x : IF x = 0 \/ Const(a.o[x].k) THEN a ELSE [a EXCEPT !.o[x].refs = @ + 1], st, ids)

Start == [o |-> Empty, freed |-> {}]
Clean(st) == [st EXCEPT !.freed = {}]
Make(st, k) == [st EXCEPT !.o = Append(@, Object(k))]
(* the caller's reference goes to a container *)
Handed(st, x) == IF Const(st.o[x].k) THEN st ELSE [st EXCEPT !.o[x].own = @ - 1]

Pair(st, a, b) == LET t == Handed(Handed(st, a), b) IN
                  [t EXCEPT !.o = Append(@, [Object("p") EXCEPT !.slots = <<a, b>>])]
Put(st, l, sl) == [st EXCEPT !.o[l].slots = sl]
(* a result takes over the value it is given, and gives up the one it had *)
Wrap(st, k, a) == LET t == Handed(st, a) IN [t EXCEPT !.o = Append(@, [Object(k) EXCEPT !.slots = <<a>>])]
Answer(st, l, a) == Drop(Put(Handed(st, a), l, <<a>>), st.o[l].slots)
Reserve(st, x) == IF Const(st.o[x].k) THEN st ELSE [Hold(st, <<x>>) EXCEPT !.o[x].own = @ + 1]
Destroy(st, x) == IF Const(st.o[x].k) THEN st ELSE Drop([st EXCEPT !.o[x].own = @ - 1], <<x>>)

Zeros(n) == [k \in 1 .. n |-> 0]
(* storing at place i (from 0); a gap is filled with nothing *)
ListInsert(st, l, i, x) ==
    LET sl == st.o[l].slots n == Len(sl) IN
    Put(Handed(st, x), l, IF i <= n THEN SubSeq(sl, 1, i) \o <<x>> \o SubSeq(sl, i + 1, n) ELSE sl \o Zeros(i - n) \o <<x>>)
ListSet(st, l, i, x) ==
    LET sl == st.o[l].slots n == Len(sl) IN
    IF i < n THEN Drop(Put(Handed(st, x), l, [sl EXCEPT ![i + 1] = x]), <<sl[i + 1]>>)
    ELSE ListInsert(st, l, i, x)
ListRemove(st, l, i) == LET sl == st.o[l].slots IN
    Drop(Put(st, l, SubSeq(sl, 1, i) \o SubSeq(sl, i + 2, Len(sl))), <<sl[i + 1]>>)
ListTrim(st, l, i) == LET sl == st.o[l].slots IN Drop(Put(st, l, SubSeq(sl, 1, i)), SubSeq(sl, i + 1, Len(sl)))
ListConcat(st, l, m) == LET t == Hold(st, st.o[m].slots) IN Put(t, l, st.o[l].slots \o st.o[m].slots)
(* a list made from one of fixed size has a fixed size, that of its contents  *)
Derived(st, l, sl) == LET t == Hold(st, sl) IN [t EXCEPT !.o = Append(@, [Object("l") EXCEPT !.slots = sl, !.cap = IF st.o[l].cap < 0 THEN -1 ELSE Len(sl)])]

Place(st, m, v) == CHOOSE j \in 0 .. Len(st.o[m].keys) :
                       IF \E k \in 1 .. Len(st.o[m].keys) : st.o[m].keys[k] = v THEN j > 0 /\ st.o[m].keys[j] = v ELSE j = 0
Without(sq, j, n) == SubSeq(sq, 1, j - 1) \o SubSeq(sq, j + n, Len(sq))
(* storing under key object kx (value v): an entry of that value is replaced; *)
(* which of the two equal key objects stays is left open                      *)
MapSet(st, m, kx, v, x) ==
    LET t == Handed(Handed(st, kx), x)
        j == Place(st, m, v)
        sl == st.o[m].slots IN
    IF j = 0 THEN {[t EXCEPT !.o[m].slots = sl \o <<kx, x>>, !.o[m].keys = Append(@, v)]}
    ELSE {Drop(Put(t, m, [sl EXCEPT ![2 * j] = x, ![2 * j - 1] = kx]), <<sl[2 * j - 1], sl[2 * j]>>),
          Drop(Put(t, m, [sl EXCEPT ![2 * j] = x]), <<kx, sl[2 * j]>>)}
MapRemove(st, m, v) ==
    LET j == Place(st, m, v) sl == st.o[m].slots IN
    IF j = 0 THEN st
    ELSE Drop([st EXCEPT !.o[m].slots = Without(sl, 2 * j - 1, 2), !.o[m].keys = Without(@, j, 1)], <<sl[2 * j - 1], sl[2 * j]>>)
MapClear(st, m) == Drop([st EXCEPT !.o[m].slots = <<>>, !.o[m].keys = <<>>], st.o[m].slots)

(* everything made by an operation, as a set of possible outcomes *)
Outcomes(st0, e) ==
    LET st == Clean(st0) IN
    CASE e.f = "new"  -> {Make(st, e.k)}
      [] e.f = "pair" -> {Pair(st, e.a, e.b)}
      [] e.f = "wrap" -> {Wrap(st, e.k, e.a)}
      [] e.f = "ans"  -> {Answer(st, e.l, e.a)}
      [] e.f = "res"  -> {Reserve(st, e.a)}
      [] e.f = "des"  -> {Destroy(st, e.a)}
      [] e.f = "app"  -> {ListInsert(st, e.l, Len(st.o[e.l].slots), e.a)}
      [] e.f = "anon" -> {Put(st, e.l, Append(st.o[e.l].slots, 0))}
      [] e.f = "pre"  -> {ListInsert(st, e.l, 0, e.a)}
      [] e.f = "ins"  -> {ListInsert(st, e.l, e.n, e.a)}
      [] e.f = "set"  -> {ListSet(st, e.l, e.n, e.a)}
      [] e.f = "rem"  -> {ListRemove(st, e.l, e.n)}
      [] e.f = "trim" -> {ListTrim(st, e.l, e.n)}
      [] e.f = "cat"  -> {ListConcat(st, e.l, e.a)}
      [] e.f = "take" -> {Derived(st, e.l, SubSeq(st.o[e.l].slots, 1, e.n))}
      [] e.f = "drop" -> {Derived(st, e.l, SubSeq(st.o[e.l].slots, e.n + 1, Len(st.o[e.l].slots)))}
      [] e.f = "tail" -> {Derived(st, e.l, Tail(st.o[e.l].slots))}
      [] e.f = "mset" -> MapSet(Make(st, "i"), e.l, Len(st.o) + 1, e.n, e.a)
      [] e.f = "mrem" -> {MapRemove(st, e.l, e.n)}
      [] e.f = "mclr" -> {MapClear(st, e.l)}
(* a refused call changes nothing, except that the key object the driver made *)
(* for it is still the driver's, who drops it                                 *)
Refused(st0, e) == LET st == Clean(st0) IN
    IF e.f = "mset" THEN Drop(Make(st, "i"), <<Len(st.o) + 1>>) ELSE st

(* which calls a careful caller may make *)
Live(st, x) == st.o[x].own > 0
RECURSIVE Reaches(_, _, _)
Reaches(st, a, b) == a = b \/ \E k \in 1 .. Len(st.o[a].slots) : st.o[a].slots[k] # 0 /\ Reaches(st, st.o[a].slots[k], b)
Usable(st) == {x \in 1 .. Len(st.o) : Live(st, x)}
Calls(st, maxobj) ==
    LET all == Usable(st)
        live == {x \in all : ~ IsResult(st.o[x].k)}
        lists == {x \in live : IsList(st.o[x].k)}
        maps == {x \in live : IsMap(st.o[x].k)}
        n(l) == Len(st.o[l].slots)
        z == [f |-> "", k |-> "", a |-> 0, b |-> 0, l |-> 0, n |-> 0]
        may(x, l) == ~ Reaches(st, x, l)
        room == Len(st.o) < maxobj IN
    UNION {
      IF room THEN {[z EXCEPT !.f = "new", !.k = k] : k \in {"i", "s", "b", "d", "g", "t", "c", "S", "N", "T", "l", "L", "K", "m", "M", "r", "R"}} ELSE {},
      IF room THEN {[z EXCEPT !.f = "pair", !.a = a, !.b = b] : <<a, b>> \in {q \in live \X live : q[1] # q[2] \/ st.o[q[1]].own > 1}} ELSE {},
      {[z EXCEPT !.f = f, !.a = a] : f \in {"res", "des"}, a \in {x \in all : ~ Const(st.o[x].k)}},
      IF room THEN {[z EXCEPT !.f = "wrap", !.k = k, !.a = a, !.n = v] : k \in {"r", "R"}, a \in live, v \in {0, 1}} ELSE {},
      {[z EXCEPT !.f = "ans", !.l = l, !.a = a, !.n = v] : l \in {x \in all : IsResult(st.o[x].k)}, a \in live, v \in {0, 1}},
      {[z EXCEPT !.f = f, !.l = q[1], !.a = q[2]] : f \in {"app", "pre"}, q \in {q \in lists \X live : may(q[2], q[1])}},
      UNION {{[z EXCEPT !.f = f, !.l = q[1], !.a = q[2], !.n = i] : f \in {"ins", "set"}, i \in 0 .. (n(q[1]) + 1)} : q \in {q \in lists \X live : may(q[2], q[1])}},
      UNION {{[z EXCEPT !.f = f, !.l = l, !.n = i] : f \in {"rem", "trim"}, i \in 0 .. (n(l) - 1)} : l \in lists},
      {[z EXCEPT !.f = "anon", !.l = l, !.n = v] : l \in lists, v \in 0 .. 2},
      {[z EXCEPT !.f = "cat", !.l = q[1], !.a = q[2]] : q \in {q \in lists \X lists : n(q[1]) + n(q[2]) <= 12 /\ \A k \in 1 .. n(q[2]) : st.o[q[2]].slots[k] = 0 \/ may(st.o[q[2]].slots[k], q[1])}},
      IF room THEN UNION {{[z EXCEPT !.f = f, !.l = l, !.n = i] : f \in {"take", "drop"}, i \in 0 .. n(l)} : l \in lists} ELSE {},
      IF room THEN {[z EXCEPT !.f = "tail", !.l = l] : l \in {l \in lists : n(l) > 0}} ELSE {},
      IF room THEN {[z EXCEPT !.f = "mset", !.l = q[1], !.a = q[2], !.n = v] : v \in {1, 2}, q \in {q \in maps \X live : may(q[2], q[1])}} ELSE {},
      {[z EXCEPT !.f = "mrem", !.l = m, !.n = v] : v \in {1, 2}, m \in maps},
      {[z EXCEPT !.f = "mclr", !.l = m] : m \in maps}}
(* a fixed list refuses what it has no room for, others never do *)
Refuses(st, e) == e.f \in {"app", "anon", "pre", "ins", "set", "cat"} /\ st.o[e.l].cap >= 0 /\
    LET n == Len(st.o[e.l].slots) c == st.o[e.l].cap IN
    CASE e.f \in {"app", "anon", "pre"} -> n >= c
      [] e.f = "ins" -> n >= c \/ e.n >= c
      [] e.f = "set" -> e.n >= c
      [] e.f = "cat" -> n + Len(st.o[e.a].slots) > c
=============================================================================
