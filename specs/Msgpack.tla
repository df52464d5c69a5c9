------------------------------ MODULE Msgpack ------------------------------
(* The wire format: encoding, decoding, measuring and reading of elements.    *)
(* Bytes are sequences of 0..255, positions count from 1. Counts and sizes of *)
(* the format are two limbs; numbers too large for any input are cut at Huge. *)
EXTENDS Values, SequencesExt

Huge == 268435456
Small(hi, lo) == IF hi >= 4096 THEN Huge ELSE hi * 65536 + lo

(* ------------------------------------------------------------- encoding *)
B2(n) == <<n \div 256, n % 256>>
Bytes(w) == Flat([k \in 1 .. Len(w) |-> B2(w[k])])
Count(n) == <<n \div 65536, n % 65536>>          (* a modest number as two limbs *)

EncUint(w) ==
    IF w[1] # 0 \/ w[2] # 0 THEN <<207>> \o Bytes(w)
    ELSE IF w[3] # 0 THEN <<206>> \o Bytes(<<w[3], w[4]>>)
    ELSE IF w[4] >= 256 THEN <<205>> \o B2(w[4])
    ELSE IF w[4] >= 128 THEN <<204, w[4]>>
    ELSE <<w[4]>>
EncInt(w) ==
    IF ~ Negative(w) THEN EncUint(w)
    ELSE IF w[1] # 65535 \/ w[2] # 65535 \/ w[3] < 32768 THEN <<211>> \o Bytes(w)
    ELSE IF w[3] # 65535 \/ w[4] < 32768 THEN <<210>> \o Bytes(<<w[3], w[4]>>)
    ELSE IF w[4] < 65408 THEN <<209>> \o B2(w[4])
    ELSE IF w[4] < 65504 THEN <<208, w[4] % 256>>
    ELSE <<w[4] % 256>>

(* headers, for counts given as two limbs *)
Head1(c, small, base, h8, h16, h32) ==
    IF c[1] = 0 /\ c[2] < small THEN <<base + c[2]>>
    ELSE IF h8 # 0 /\ c[1] = 0 /\ c[2] < 256 THEN <<h8, c[2]>>
    ELSE IF c[1] = 0 THEN <<h16>> \o B2(c[2])
    ELSE <<h32>> \o Bytes(c)
StrHead(c) == Head1(c, 32, 160, 217, 218, 219)
BinHead(c) == Head1(c, 0, 0, 196, 197, 198)
ListHead(c) == Head1(c, 16, 144, 0, 220, 221)
MapHead(c) == Head1(c, 16, 128, 0, 222, 223)
FixExt(c) == IF c[1] # 0 THEN 0
             ELSE CASE c[2] = 1 -> 212 [] c[2] = 2 -> 213 [] c[2] = 4 -> 214 [] c[2] = 8 -> 215 [] c[2] = 16 -> 216 [] OTHER -> 0
ExtHead(c, type) == (IF FixExt(c) # 0 THEN <<FixExt(c)>> ELSE Head1(c, 0, 0, 199, 200, 201)) \o <<type>>

Raw(marker, b) == StrHead(Count(Len(b) + 1)) \o <<marker>> \o b

RECURSIVE Encode(_)
Encode(v) ==
    CASE v.t = "nil" -> <<192>>
      [] v.t = "bool" -> <<194 + v.v>>
      [] v.t = "int" -> EncInt(v.w)
      [] v.t = "dbl" -> <<203>> \o Bytes(v.w)
      [] v.t = "str" -> Raw(3, v.b)
      [] v.t = "geo" -> Raw(23, v.b)
      [] v.t = "bin" -> Raw(v.k, v.b)
      [] v.t = "list" -> ListHead(Count(Len(v.e))) \o Flat([k \in 1 .. Len(v.e) |-> Encode(v.e[k])])
      [] v.t = "pair" -> <<146>> \o Encode(v.e[1]) \o Encode(v.e[2])
      [] v.t = "map" -> (IF v.f % 2 = 1 THEN MapHead(Count(Len(v.e) + 1)) \o ExtHead(<<0, 0>>, v.f) \o <<192>>
                         ELSE MapHead(Count(Len(v.e))))
                        \o Flat([k \in 1 .. Len(v.e) |-> Encode(v.e[k][1]) \o Encode(v.e[k][2])])
      [] v.t = "wild" -> <<212, 255, 0>>
      [] v.t = "inf" -> <<212, 255, 1>>

(* the size of the encoding, by arithmetic alone *)
IntSize(w) == IF w[1] \notin {0, 65535} \/ w[2] # w[1] \/ (w[1] = 65535 /\ w[3] < 32768) THEN 9
              ELSE IF (w[1] = 0 /\ w[3] # 0) \/ (w[1] = 65535 /\ (w[3] # 65535 \/ w[4] < 32768)) THEN 5
              ELSE IF (w[1] = 0 /\ w[4] > 255) \/ (w[1] = 65535 /\ w[4] < 65408) THEN 3
              ELSE IF (w[1] = 0 /\ w[4] > 127) \/ (w[1] = 65535 /\ w[4] < 65504) THEN 2 ELSE 1
RawSize(n) == n + 1 + (IF n + 1 < 32 THEN 1 ELSE IF n + 1 < 256 THEN 2 ELSE IF n + 1 < 65536 THEN 3 ELSE 5)
HeadSize(n) == IF n < 16 THEN 1 ELSE IF n < 65536 THEN 3 ELSE 5
RECURSIVE SizeOf(_), SumSizes(_, _, _)
SizeOf(v) ==
    CASE v.t \in {"nil", "bool"} -> 1
      [] v.t = "int" -> IntSize(v.w)
      [] v.t = "dbl" -> 9
      [] v.t \in {"str", "geo", "bin"} -> RawSize(Len(v.b))
      [] v.t = "list" -> HeadSize(Len(v.e)) + SumSizes(v.e, 1, Len(v.e))
      [] v.t = "pair" -> 1 + SizeOf(v.e[1]) + SizeOf(v.e[2])
      [] v.t = "map" -> (IF v.f % 2 = 1 THEN HeadSize(Len(v.e) + 1) + 4 ELSE HeadSize(Len(v.e)))
                        + SumSizes([k \in 1 .. Len(v.e) |-> [t |-> "pair", e |-> v.e[k]]], 1, Len(v.e)) - Len(v.e)
      [] v.t \in {"wild", "inf"} -> 3
SumSizes(es, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN SizeOf(es[lo])
                        ELSE LET mid == (lo + hi) \div 2 IN SumSizes(es, lo, mid) + SumSizes(es, mid + 1, hi)

(* --------------------------------------------------------------- reading *)
Fail == [ok |-> FALSE]
In(b, p, n) == p + n - 1 <= Len(b)               (* n bytes from p are present *)
W2(b, p) == b[p] * 256 + b[p + 1]

(* the count or size of k bytes at p, as two limbs *)
CountAt(b, p, k) == CASE k = 0 -> <<0, 0>> [] k = 1 -> <<0, b[p]>> [] k = 2 -> <<0, W2(b, p)>> [] k = 4 -> <<W2(b, p), W2(b, p + 2)>>

(* Header at p: kind, bytes of size field, embedded count (or -1) *)
Kind(c) ==
    CASE c < 128 -> [k |-> "int", z |-> 0, n |-> c]
      [] c < 144 -> [k |-> "map", z |-> 0, n |-> c - 128]
      [] c < 160 -> [k |-> "list", z |-> 0, n |-> c - 144]
      [] c < 192 -> [k |-> "raw", z |-> 0, n |-> c - 160]
      [] c = 192 -> [k |-> "nil", z |-> 0, n |-> 0]
      [] c = 193 -> [k |-> "bad", z |-> 0, n |-> 0]
      [] c \in {194, 195} -> [k |-> "bool", z |-> 0, n |-> c - 194]
      [] c = 196 -> [k |-> "raw", z |-> 1, n |-> 0]
      [] c = 197 -> [k |-> "raw", z |-> 2, n |-> 0]
      [] c = 198 -> [k |-> "raw", z |-> 4, n |-> 0]
      [] c = 199 -> [k |-> "ext", z |-> 1, n |-> 0]
      [] c = 200 -> [k |-> "ext", z |-> 2, n |-> 0]
      [] c = 201 -> [k |-> "ext", z |-> 4, n |-> 0]
      [] c = 202 -> [k |-> "flt", z |-> 0, n |-> 4]
      [] c = 203 -> [k |-> "dbl", z |-> 0, n |-> 8]
      [] c = 204 -> [k |-> "uns", z |-> 0, n |-> 1]
      [] c = 205 -> [k |-> "uns", z |-> 0, n |-> 2]
      [] c = 206 -> [k |-> "uns", z |-> 0, n |-> 4]
      [] c = 207 -> [k |-> "uns", z |-> 0, n |-> 8]
      [] c = 208 -> [k |-> "sig", z |-> 0, n |-> 1]
      [] c = 209 -> [k |-> "sig", z |-> 0, n |-> 2]
      [] c = 210 -> [k |-> "sig", z |-> 0, n |-> 4]
      [] c = 211 -> [k |-> "sig", z |-> 0, n |-> 8]
      [] c = 212 -> [k |-> "ext", z |-> 0, n |-> 1]
      [] c = 213 -> [k |-> "ext", z |-> 0, n |-> 2]
      [] c = 214 -> [k |-> "ext", z |-> 0, n |-> 4]
      [] c = 215 -> [k |-> "ext", z |-> 0, n |-> 8]
      [] c = 216 -> [k |-> "ext", z |-> 0, n |-> 16]
      [] c = 217 -> [k |-> "raw", z |-> 1, n |-> 0]
      [] c = 218 -> [k |-> "raw", z |-> 2, n |-> 0]
      [] c = 219 -> [k |-> "raw", z |-> 4, n |-> 0]
      [] c = 220 -> [k |-> "list", z |-> 2, n |-> 0]
      [] c = 221 -> [k |-> "list", z |-> 4, n |-> 0]
      [] c = 222 -> [k |-> "map", z |-> 2, n |-> 0]
      [] c = 223 -> [k |-> "map", z |-> 4, n |-> 0]
      [] OTHER -> [k |-> "int", z |-> 0, n |-> c]

(* [ok, k, c: count as limbs, n: position after the header] *)
Header(b, p) ==
    IF ~ In(b, p, 1) THEN Fail
    ELSE LET h == Kind(b[p]) IN
         IF h.k = "bad" \/ ~ In(b, p + 1, h.z) THEN Fail
         ELSE [ok |-> TRUE, k |-> h.k, n |-> p + 1 + h.z,
               c |-> IF h.z = 0 THEN <<0, h.n>> ELSE CountAt(b, p + 1, h.z)]

(* bytes the element has after its header, apart from elements it contains *)
Body(h) == CASE h.k \in {"flt", "dbl", "uns", "sig", "raw"} -> Small(h.c[1], h.c[2])
             [] h.k = "ext" -> Small(h.c[1], h.c[2]) + 1
             [] OTHER -> 0
Parts(h) == CASE h.k = "list" -> Small(h.c[1], h.c[2]) [] h.k = "map" -> 2 * Small(h.c[1], h.c[2]) [] OTHER -> 0

(* Elements follow each other and containers announce how many of the next    *)
(* ones are theirs, so that counting how many are still due is enough to find *)
(* the end.  SkipN: position after `need` elements from p, or 0 when they are *)
(* not all there.  (Folds rather than recursion: nesting can be deep.)        *)
SkipStep(b, acc, p) ==
    IF acc[1] # p \/ acc[2] = 0 THEN acc
    ELSE LET h == Header(b, p) IN
         IF ~ h.ok THEN <<0, 1>>
         ELSE IF ~ In(b, h.n, Body(h)) \/ Parts(h) > Len(b) THEN <<0, 1>>
         ELSE <<h.n + Body(h), acc[2] - 1 + Parts(h)>>
SkipN(b, p, need) ==
    LET Op(acc, q) == SkipStep(b, acc, q)
        r == FoldLeftDomain(Op, <<p, need>>, b)
    IN IF r[2] = 0 THEN r[1] ELSE 0
Skip(b, p) == SkipN(b, p, 1)

(* scalars; the result of a reader is [ok, .., n: position after it] *)
WordAt(b, p, k) == CASE k = 1 -> <<0, 0, 0, b[p]>>
                     [] k = 2 -> <<0, 0, 0, W2(b, p)>>
                     [] k = 4 -> <<0, 0, W2(b, p), W2(b, p + 2)>>
                     [] k = 8 -> <<W2(b, p), W2(b, p + 2), W2(b, p + 4), W2(b, p + 6)>>
Extend(w, k) == CASE k = 1 -> IF w[4] >= 128 THEN <<65535, 65535, 65535, 65280 + w[4]>> ELSE w
                  [] k = 2 -> IF w[4] >= 32768 THEN <<65535, 65535, 65535, w[4]>> ELSE w
                  [] k = 4 -> IF w[3] >= 32768 THEN <<65535, 65535, w[3], w[4]>> ELSE w
                  [] k = 8 -> w
ReadInt(b, p) ==
    LET h == Header(b, p) IN
    IF ~ h.ok THEN Fail
    ELSE IF h.k = "int" THEN [ok |-> TRUE, n |-> p + 1,
            w |-> IF b[p] < 128 THEN <<0, 0, 0, b[p]>> ELSE <<65535, 65535, 65535, 65280 + b[p]>>]
    ELSE IF h.k \notin {"uns", "sig"} \/ ~ In(b, h.n, h.c[2]) THEN Fail
    ELSE [ok |-> TRUE, n |-> h.n + h.c[2],
          w |-> IF h.k = "uns" THEN WordAt(b, h.n, h.c[2]) ELSE Extend(WordAt(b, h.n, h.c[2]), h.c[2])]

(* a float as a double *)
RECURSIVE Shifts(_)
Shifts(m) == IF m >= 8388608 THEN 0 ELSE 1 + Shifts(2 * m)
RECURSIVE Shl(_, _)
Shl(m, k) == IF k = 0 THEN m ELSE Shl(2 * m, k - 1)
Widen(hi, lo) ==
    LET s == IF hi >= 32768 THEN 32768 ELSE 0
        e == (hi % 32768) \div 128
        m == (hi % 128) * 65536 + lo
        k == IF e = 0 /\ m # 0 THEN Shifts(m) ELSE 0
        mm == IF e = 0 /\ m # 0 THEN Shl(m, k) - 8388608 ELSE m
        ee == IF e = 255 THEN 2047 ELSE IF e = 0 THEN (IF m = 0 THEN 0 ELSE 897 - k) ELSE e + 896
    IN <<s + ee * 16 + mm \div 524288, (mm \div 8) % 65536, (mm % 8) * 8192, 0>>
ReadDouble(b, p) ==
    LET h == Header(b, p) IN
    IF ~ h.ok \/ h.k \notin {"flt", "dbl"} \/ ~ In(b, p + 1, h.c[2]) THEN Fail
    ELSE [ok |-> TRUE, n |-> h.n + h.c[2],
          w |-> IF h.k = "dbl" THEN WordAt(b, h.n, 8) ELSE Widen(W2(b, h.n), W2(b, h.n + 2))]
ReadBool(b, p) == LET h == Header(b, p) IN IF h.ok /\ h.k = "bool" THEN [ok |-> TRUE, v |-> h.c[2], n |-> p + 1] ELSE Fail
ReadNil(b, p) == LET h == Header(b, p) IN IF h.ok /\ h.k = "nil" THEN [ok |-> TRUE, n |-> p + 1] ELSE Fail
(* the size field of a string or blob; the content need not be there *)
ReadRawSize(b, p) == LET h == Header(b, p) IN IF h.ok /\ h.k = "raw" THEN [ok |-> TRUE, c |-> h.c, n |-> h.n] ELSE Fail
ReadRaw(b, p) ==
    LET h == Header(b, p) IN
    IF ~ h.ok \/ h.k # "raw" \/ ~ In(b, h.n, Body(h)) THEN Fail
    ELSE [ok |-> TRUE, at |-> h.n, len |-> Body(h), n |-> h.n + Body(h)]
ReadExt(b, p) ==
    LET h == Header(b, p) IN
    IF ~ h.ok \/ h.k # "ext" \/ ~ In(b, h.n, Body(h)) THEN Fail
    ELSE [ok |-> TRUE, type |-> b[h.n], at |-> h.n + 1, len |-> Body(h) - 1, n |-> h.n + Body(h)]
ReadCount(b, p, kind) == LET h == Header(b, p) IN IF h.ok /\ h.k = kind THEN [ok |-> TRUE, c |-> h.c, n |-> h.n] ELSE Fail
IsExt(b, p) == In(b, p, 1) /\ Kind(b[p]).k = "ext"

(* -------------------------------------------------------------- decoding *)
RECURSIVE ZeroFrom(_, _)
ZeroFrom(b, k) == IF k > Len(b) \/ b[k] = 0 THEN k ELSE ZeroFrom(b, k + 1)
UpToZero(b) == SubSeq(b, 1, ZeroFrom(b, 1) - 1)  (* texts end at a zero byte *)

RawValue(s) ==
    IF s = <<>> THEN [t |-> "bin", k |-> 0, b |-> <<>>]
    ELSE IF s[1] = 3 THEN [t |-> "str", b |-> UpToZero(Tail(s))]
    ELSE IF s[1] = 23 THEN [t |-> "geo", b |-> UpToZero(Tail(s))]
    ELSE [t |-> "bin", k |-> s[1], b |-> Tail(s)]
None == [t |-> "none"]
KeyOk(v) == v.t \in {"int", "str"} \/ (v.t = "bin" /\ v.k = 4)
MapFlags(f) ==        (* known flags only; any of them implies ordering by key *)
    LET k == ((f \div 16) % 2) * 16 + (f % 4) IN IF k = 0 \/ k % 2 = 1 THEN k ELSE k + 1
PreserveOrder(f) == (f \div 8) % 2 = 1

RECURSIVE Decode(_, _), DecodeList(_, _, _, _), DecodeMap(_, _, _, _), DecodeFlat(_, _, _, _)
Decode(b, p) ==
    LET h == Header(b, p) IN
    IF ~ h.ok THEN Fail
    ELSE IF ~ In(b, h.n, Body(h)) \/ Parts(h) > Len(b) THEN Fail
    ELSE CASE h.k = "nil" -> [ok |-> TRUE, v |-> [t |-> "nil"], n |-> h.n]
           [] h.k = "bool" -> [ok |-> TRUE, v |-> [t |-> "bool", v |-> h.c[2]], n |-> h.n]
           [] h.k \in {"int", "uns", "sig"} -> LET r == ReadInt(b, p) IN [ok |-> TRUE, v |-> [t |-> "int", w |-> r.w], n |-> r.n]
           [] h.k \in {"flt", "dbl"} -> LET r == ReadDouble(b, p) IN [ok |-> TRUE, v |-> [t |-> "dbl", w |-> r.w], n |-> r.n]
           [] h.k = "raw" -> [ok |-> TRUE, v |-> RawValue(SubSeq(b, h.n, h.n + Body(h) - 1)), n |-> h.n + Body(h)]
           [] h.k = "ext" -> [ok |-> TRUE, v |-> None, n |-> h.n + Body(h)]
           [] h.k = "list" ->
                IF h.c[2] # 0 /\ IsExt(b, h.n)
                THEN LET x == ReadExt(b, h.n) IN
                     IF ~ x.ok THEN Fail ELSE LET r == DecodeList(b, x.n, Parts(h) - 1, <<>>) IN
                        IF ~ r.ok THEN Fail ELSE [r EXCEPT !.v = [t |-> "list", f |-> x.type, e |-> r.v]]
                ELSE LET r == DecodeList(b, h.n, Parts(h), <<>>) IN
                     IF ~ r.ok THEN Fail ELSE [r EXCEPT !.v = [t |-> "list", f |-> 0, e |-> r.v]]
           [] h.k = "map" ->
                LET m == Parts(h) \div 2
                    meta == m # 0 /\ IsExt(b, h.n)
                    x == ReadExt(b, h.n)
                    q == IF ~ meta THEN h.n ELSE IF ~ x.ok THEN 0 ELSE Skip(b, x.n)
                    f == IF meta THEN x.type ELSE 0
                    c == IF meta THEN m - 1 ELSE m
                IN IF q = 0 THEN Fail
                   ELSE IF PreserveOrder(f) THEN LET r == DecodeFlat(b, q, c, <<>>) IN
                        IF ~ r.ok THEN Fail ELSE [r EXCEPT !.v = [t |-> "list", f |-> 0, e |-> r.v]]
                   ELSE LET r == DecodeMap(b, q, c, <<>>) IN
                        IF ~ r.ok THEN Fail ELSE [r EXCEPT !.v = [t |-> "map", f |-> MapFlags(f), e |-> r.v]]
DecodeList(b, p, m, acc) ==
    IF m = 0 THEN [ok |-> TRUE, v |-> acc, n |-> p]
    ELSE LET r == Decode(b, p) IN IF ~ r.ok THEN Fail ELSE IF r.v.t = "none" THEN Fail ELSE DecodeList(b, r.n, m - 1, Append(acc, r.v))
DecodeMap(b, p, m, acc) ==
    IF m = 0 THEN [ok |-> TRUE, v |-> acc, n |-> p]
    ELSE LET k == Decode(b, p) IN
         IF ~ k.ok THEN Fail
         ELSE LET v == Decode(b, k.n) IN
              IF ~ v.ok THEN Fail
              ELSE IF v.v.t = "none" \/ ~ KeyOk(k.v) THEN Fail
              ELSE DecodeMap(b, v.n, m - 1, Place(acc, <<k.v, v.v>>, 1))
(* keys and values in turn, in the order of the input *)
DecodeFlat(b, p, m, acc) ==
    IF m = 0 THEN [ok |-> TRUE, v |-> acc, n |-> p]
    ELSE LET k == Decode(b, p) IN
         IF ~ k.ok THEN Fail
         ELSE LET v == Decode(b, k.n) IN
              IF ~ v.ok THEN Fail
              ELSE DecodeFlat(b, v.n, m - 1, IF k.v.t = "none" \/ v.v.t = "none" THEN acc ELSE acc \o <<k.v, v.v>>)

(* the type a value is announced to have; 0 when nothing well-formed follows *)
Peek(b, p) ==
    IF Skip(b, p) = 0 THEN 0
    ELSE LET h == Header(b, p) IN
         CASE h.k = "nil" -> 1 [] h.k = "bool" -> 2 [] h.k \in {"int", "uns", "sig"} -> 3
           [] h.k = "list" -> 5 [] h.k = "map" -> 6 [] h.k \in {"flt", "dbl"} -> 10
           [] h.k = "raw" -> Rank(RawValue(SubSeq(b, h.n, h.n + Body(h) - 1)))
           [] h.k = "ext" -> IF b[p] = 212 /\ b[p + 1] = 255 /\ b[p + 2] \in {0, 1} THEN 13 + b[p + 2] ELSE 12

(* What comparison sees: extensions for the wildcard and the infinite value   *)
(* are values, metadata of maps is left out, maps keep the order of the input *)
Starts(b, p) ==       (* where the elements of the value at p start *)
    LET Op(acc, q) == IF acc[1] # q \/ acc[2] = 0 THEN acc
                      ELSE SkipStep(b, acc, q) \o <<Append(acc[3], q)>>
    IN FoldLeftDomain(Op, <<p, 1, <<>>>>, b)
ViewLeaf(b, p, h) ==
    CASE h.k = "ext" -> LET x == ReadExt(b, p) IN
             IF x.len = 1 /\ x.type = 255 THEN (IF b[x.at] = 0 THEN [t |-> "wild"] ELSE [t |-> "inf"])
             ELSE [t |-> "ext"]
      [] h.k = "raw" -> LET s == SubSeq(b, h.n, h.n + Body(h) - 1) IN
             [RawValue(s) EXCEPT !.b = IF s = <<>> THEN <<>> ELSE Tail(s)]
      [] OTHER -> Decode(b, p).v
ViewMap(es) ==
    LET s == IF es # <<>> /\ es[1].t = "ext" THEN SubSeq(es, 3, Len(es)) ELSE es
    IN [t |-> "map", f |-> 0, e |-> [k \in 1 .. Len(s) \div 2 |-> <<s[2 * k - 1], s[2 * k]>>]]
(* from the last element to the first; containers take their parts off the stack *)
View(b, p) ==
    LET ts == Starts(b, p)
        Op(q, st) ==
            LET h == Header(b, q)
                m == Parts(h)
                es == SubSeq(st, 1, m)
                v == CASE h.k = "list" -> [t |-> "list", f |-> 0, e |-> es]
                       [] h.k = "map" -> ViewMap(es)
                       [] OTHER -> ViewLeaf(b, q, h)
            IN <<v>> \o SubSeq(st, m + 1, Len(st))
    IN [v |-> FoldRight(Op, ts[3], <<>>)[1], n |-> ts[1]]
=============================================================================
