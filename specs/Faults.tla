------------------------------- MODULE Faults -------------------------------
(* Containers whose operations may be refused for lack of memory.  An         *)
(* operation either takes its full effect or changes nothing.                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

(* kinds: l i lists, m n maps, q s S t Q queues, b B w byte buffers, p pool   *)
IsList(k) == k \in {"l", "i"}
IsMap(k) == k \in {"m", "n"}
IsQueue(k) == k \in {"q", "s", "S", "t", "Q"}
IsBytes(k) == k \in {"b", "B", "w"}

(* q: contents in order; m: entries of a map; z: entries stored in bulk;      *)
(* cap, blk: capacity and growth step given; held: pool buffers in use        *)
Nothing == [k |-> "", q |-> <<>>, m |-> [x \in {} |-> 0], z |-> 0, cap |-> 0, blk |-> 0, held |-> 0, big |-> 0]
Kept(s) == [s |-> s, r |-> 0, d |-> <<>>]
Gives(s, d) == [s |-> s, r |-> 0, d |-> d]
No(s) == [s |-> s, r |-> 1, d |-> <<>>]
Now(s, q) == Kept([s EXCEPT !.q = q])

Nils(n) == [k \in 1 .. n |-> 0]
FirstN(q, n) == SubSeq(q, 1, n)
Rest(q, n) == SubSeq(q, n + 1, Len(q))
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
Fits(s, n) == s.blk > 0 \/ n <= s.cap

(* the element a call stores: kind of value times 1000 plus a number *)
Elem(e) == (IF e.t = 0 THEN 1 ELSE e.t) * 1000 + e.b
Inserting(s, i, x) ==
    IF ~ Fits(s, Larger(Len(s.q), i) + 1) THEN No(s)
    ELSE Now(s, IF i <= Len(s.q) THEN FirstN(s.q, i) \o <<x>> \o Rest(s.q, i) ELSE s.q \o Nils(i - Len(s.q)) \o <<x>>)
Setting(s, i, x) ==
    IF ~ Fits(s, i + 1) THEN No(s)
    ELSE IF i < Len(s.q) THEN Now(s, [s.q EXCEPT ![i + 1] = x])
    ELSE Now(s, s.q \o Nils(i - Len(s.q)) \o <<x>>)

Sorted(m) == SetToSortSeq(DOMAIN m, <)
Flat(m) == FoldLeft(LAMBDA a, k : a \o <<k, m[k]>>, <<>>, Sorted(m))
(* maps: whole numbers are keys below 100, texts above *)
Store(s, k, x) == Kept([s EXCEPT !.m = [y \in DOMAIN s.m \cup {k} |-> IF y = k THEN x ELSE s.m[y]]])
Erase(s, k) == Kept([s EXCEPT !.m = [y \in DOMAIN s.m \ {k} |-> s.m[y]]])

Pattern(n, x) == [k \in 1 .. n |-> (x + k) % 256]

Contents(s) == IF IsMap(s.k) THEN Flat(s.m) ELSE s.q

Effect(s, e) ==
    CASE e.o = "make" -> Kept([Nothing EXCEPT !.k = e.k, !.cap = e.a, !.blk = e.b,
                               !.q = IF e.k = "w" THEN Pattern(e.a, 7) ELSE IF e.k = "p" THEN <<0>> ELSE <<>>])
      \* lists
      [] e.o = "ins"  -> Inserting(s, e.a, Elem(e))
      [] e.o = "app"  -> Inserting(s, Len(s.q), Elem(e))
      [] e.o = "pre"  -> Inserting(s, 0, Elem(e))
      [] e.o = "set"  -> Setting(s, e.a, Elem(e))
      [] e.o = "rem"  -> IF e.a >= Len(s.q) THEN No(s) ELSE Now(s, FirstN(s.q, e.a) \o Rest(s.q, e.a + 1))
      [] e.o = "trim" -> IF e.a >= Len(s.q) THEN No(s) ELSE Now(s, FirstN(s.q, e.a))
      [] e.o = "cat"  -> IF ~ Fits(s, Len(s.q) + e.a) THEN No(s) ELSE Now(s, s.q \o [k \in 1 .. e.a |-> 1000 + k])
      [] e.o = "take" -> Gives(s, FirstN(s.q, Smaller(e.a, Len(s.q))))
      [] e.o = "drop" -> Gives(s, Rest(s.q, Smaller(e.a, Len(s.q))))
      [] e.o = "tail" -> IF s.q = <<>> THEN No(s) ELSE Gives(s, Tail(s.q))
      [] e.o = "iter" -> Gives(s, Contents(s))
      \* maps
      [] e.o = "mset" -> Store(s, e.a, Elem(e))
      [] e.o = "mrem" -> Erase(s, e.a)
      [] e.o = "mclr" -> Kept([s EXCEPT !.m = [x \in {} |-> 0], !.z = 0])
      [] e.o = "each" -> Gives(s, Contents(s))
      [] e.o = "bulk" -> Kept([s EXCEPT !.z = @ + e.a, !.big = @ + 1])
      \* queues
      [] e.o \in {"push", "pusl"} -> Now(s, Append(s.q, e.b))
      [] e.o = "pusu" -> IF Contains(s.q, e.b) THEN No(s) ELSE Now(s, Append(s.q, e.b))
      [] e.o = "pusi" -> Now(s, FirstN(s.q, Smaller(e.a, Len(s.q))) \o <<e.b>> \o Rest(s.q, Smaller(e.a, Len(s.q))))
      [] e.o = "push_head" -> Now(s, <<e.b>> \o s.q)
      [] e.o = "pop"  -> IF s.q = <<>> THEN No(s) ELSE [s |-> [s EXCEPT !.q = Tail(@)], r |-> 0, d |-> <<Head(s.q)>>]
      [] e.o = "popt" -> IF s.q = <<>> THEN No(s) ELSE [s |-> [s EXCEPT !.q = FirstN(@, Len(@) - 1)], r |-> 0, d |-> <<Last(s.q)>>]
      \* byte buffers: room for a bytes, or a bytes appended within the room
      [] e.o = "room" -> IF e.a > s.cap THEN (IF e.b = 1 THEN Kept([s EXCEPT !.cap = e.a]) ELSE No(s)) ELSE Kept(s)
      [] e.o = "bapp" -> IF Len(s.q) + e.a > s.cap THEN No(s) ELSE Now(s, s.q \o Pattern(e.a, e.b))
      \* pool: contents are the number of idle buffers
      [] e.o = "get"  -> Kept([s EXCEPT !.q = IF e.a = 0 THEN <<Larger(@[1] - 1, 0)>> ELSE @, !.held = IF e.a = 0 THEN @ + 1 ELSE @, !.big = IF e.a = 0 THEN @ ELSE @ + 1])
      [] e.o = "put"  -> Kept([s EXCEPT !.q = <<@[1] + 1>>, !.held = @ - 1])
      [] e.o = "fill" -> Kept([s EXCEPT !.q = <<e.a>>, !.held = @ + 1])

(* a buffer that cannot be taken back is given up, as documented *)
Refusal(s, e) == IF e.o = "put" THEN [s EXCEPT !.held = @ - 1] ELSE s
=============================================================================
