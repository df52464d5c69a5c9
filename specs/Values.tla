------------------------------- MODULE Values -------------------------------
(* The values of the library and their order. A value is a record with tag t: *)
(*   nil; bool (v); int (w: four limbs); dbl (w: bits as four limbs);         *)
(*   str, geo (b: bytes); bin (k: type, b: bytes);                            *)
(*   list (f: flags, e: elements); map (f: flags, e: <<key, value>> entries); *)
(*   pair (e: two values); wild; inf; none.                                   *)
EXTENDS Wide, FiniteSets

Rank(v) == CASE v.t = "nil" -> 1 [] v.t = "bool" -> 2 [] v.t = "int" -> 3 [] v.t = "str" -> 4
             [] v.t = "list" -> 5 [] v.t = "map" -> 6 [] v.t = "pair" -> 8 [] v.t = "bin" -> 9
             [] v.t = "dbl" -> 10 [] v.t = "geo" -> 11 [] v.t = "ext" -> 12 [] v.t = "wild" -> 13 [] v.t = "inf" -> 14

Sign(a, b) == IF a < b THEN 0 - 1 ELSE IF a > b THEN 1 ELSE 0

(* first difference decides, else length *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) ==
    IF k > Len(a) \/ k > Len(b) THEN Sign(Len(a), Len(b))
    ELSE IF a[k] # b[k] THEN Sign(a[k], b[k]) ELSE CmpFrom(a, b, k + 1)
CmpSeq(a, b) == IF a = b THEN 0 ELSE CmpFrom(a, b, 1)

(* order-preserving images of signed words and of double bits *)
SignedKey(w) == [w EXCEPT ![1] = (@ + 32768) % Base]
DoubleZero(w) == w[1] % 32768 = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0
DoubleKey(w) == IF DoubleZero(w) THEN <<32768, 0, 0, 0>>
                ELSE IF Negative(w) THEN [k \in 1 .. 4 |-> 65535 - w[k]]
                ELSE [w EXCEPT ![1] = @ + 32768]
NaN(w) == LET h == w[1] % 32768 IN h > 32752 \/ (h = 32752 /\ (w[2] # 0 \/ w[3] # 0 \/ w[4] # 0))

Wild(v) == v.t = "wild"

RECURSIVE Cmp(_, _), CmpList(_, _, _), CmpEntries(_, _, _)
Cmp(a, b) ==
    IF Wild(a) \/ Wild(b) THEN 0
    ELSE IF Rank(a) # Rank(b) THEN Sign(Rank(a), Rank(b))
    ELSE CASE a.t = "bool" -> Sign(a.v, b.v)
           [] a.t = "int" -> CmpSeq(SignedKey(a.w), SignedKey(b.w))
           [] a.t = "dbl" -> CmpSeq(DoubleKey(a.w), DoubleKey(b.w))
           [] a.t \in {"str", "geo", "bin"} -> CmpSeq(a.b, b.b)
           [] a.t = "list" -> CmpList(a.e, b.e, 1)
           [] a.t = "map" -> IF Len(a.e) # Len(b.e) THEN Sign(Len(a.e), Len(b.e)) ELSE CmpEntries(a.e, b.e, 1)
           [] OTHER -> 0
(* element by element; a wildcard ends the comparison as equal *)
CmpList(a, b, k) ==
    IF k > Len(a) \/ k > Len(b) THEN Sign(Len(a), Len(b))
    ELSE IF Wild(a[k]) \/ Wild(b[k]) THEN 0
    ELSE LET c == Cmp(a[k], b[k]) IN IF c # 0 THEN c ELSE CmpList(a, b, k + 1)
CmpEntries(a, b, k) ==
    IF k > Len(a) THEN 0
    ELSE LET c == Cmp(a[k][1], b[k][1]) IN
         IF c # 0 THEN c
         ELSE IF Wild(a[k][2]) \/ Wild(b[k][2]) THEN 0
         ELSE LET d == Cmp(a[k][2], b[k][2]) IN IF d # 0 THEN d ELSE CmpEntries(a, b, k + 1)

(* map entries in key order, from any order; keys are distinct *)
RECURSIVE Place(_, _, _)
Place(es, x, k) ==
    IF k > Len(es) THEN Append(es, x)
    ELSE LET c == Cmp(x[1], es[k][1]) IN
         IF c = 0 THEN [es EXCEPT ![k] = x]
         ELSE IF c < 0 THEN SubSeq(es, 1, k - 1) \o <<x>> \o SubSeq(es, k, Len(es))
         ELSE Place(es, x, k + 1)
RECURSIVE SortFrom(_, _, _)
SortFrom(es, done, k) == IF k > Len(es) THEN done ELSE SortFrom(es, Place(done, es[k], 1), k + 1)
Ascending(es) == \A k \in 1 .. (Len(es) - 1) : Cmp(es[k][1], es[k + 1][1]) < 0
Sorted(es) == IF Ascending(es) THEN es ELSE SortFrom(es, <<>>, 1)

RECURSIVE Norm(_)
Norm(v) ==
    CASE v.t = "list" -> [v EXCEPT !.e = [k \in 1 .. Len(v.e) |-> Norm(v.e[k])]]
      [] v.t = "pair" -> [v EXCEPT !.e = [k \in 1 .. 2 |-> Norm(v.e[k])]]
      [] v.t = "map" -> [v EXCEPT !.e = Sorted([k \in 1 .. Len(v.e) |-> <<Norm(v.e[k][1]), Norm(v.e[k][2])>>])]
      [] v.t = "rep" -> [t |-> "str", b |-> [k \in 1 .. v.n |-> v.c]]   (* a long text of one character *)
      [] OTHER -> v

(* concatenation of a sequence of sequences, by halves *)
RECURSIVE FlatFrom(_, _, _)
FlatFrom(ss, lo, hi) ==
    IF lo > hi THEN <<>>
    ELSE IF lo = hi THEN ss[lo]
    ELSE LET mid == (lo + hi) \div 2 IN FlatFrom(ss, lo, mid) \o FlatFrom(ss, mid + 1, hi)
Flat(ss) == FlatFrom(ss, 1, Len(ss))
=============================================================================
