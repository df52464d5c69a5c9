---------------------------- MODULE MsgpackTrace ----------------------------
(* Recorded encodings, decodings, reads, measurements and comparisons.        *)
EXTENDS Msgpack, TraceUtil
VARIABLES x, i
Init == x = 0 /\ i = 1

Expand(z) == Flat([k \in 1 .. Len(z) |-> [j \in 1 .. z[k][2] |-> z[k][1]]])
Bts(e) == IF "z" \in DOMAIN e THEN Expand(e.z) ELSE e.b
Num(n) == Count(n)

(* --- values nested n deep: level k wraps what is below it by (k + s) % 4 --- *)
Lvl(k, s) == (k + s) % 4
LvlInt(k) == EncInt(<<0, 0, 0, k % 200>>)
LvlHead(k, s) == CASE Lvl(k, s) = 0 -> <<145>>
                   [] Lvl(k, s) = 1 -> <<147>> \o LvlInt(k)
                   [] Lvl(k, s) = 2 -> <<129>> \o LvlInt(k)
                   [] Lvl(k, s) = 3 -> <<130>> \o ExtHead(<<0, 0>>, 1) \o <<192>> \o LvlInt(k)
LvlTail(k, s) == IF Lvl(k, s) = 1 THEN <<192>> ELSE <<>>
NestBytes(n, s) == Flat([k \in 1 .. n |-> LvlHead(k, s)]) \o Raw(3, <<97, 98>>)
                   \o Flat([k \in 1 .. n |-> LvlTail(n + 1 - k, s)])
(* the decoded value, read off level by level: kind, size and the integer next to the way down *)
LvlTok(k, s) == <<Lvl(k, s), CASE Lvl(k, s) = 1 -> 3 [] OTHER -> 1, IF Lvl(k, s) = 0 THEN 0 ELSE k % 200>>

(* --- chains: n containers of one element each around an inner value; these *)
(* two follow from Cmp and Skip by induction and are checked for small n in   *)
(* OrderLaws --- *)
ChainHead(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 3
ChainCmp(a, c) == Cmp(a, c)
ChainSize(k, n, inner) == n * ChainHead(k) + Len(inner)

(* --- direct packing: the bytes of each kind of element --- *)
DirBytes(e) ==
    CASE e.k = "nil" -> <<192>>
      [] e.k = "bool" -> <<194 + e.v>>
      [] e.k = "inf" -> <<212, 255, 1>>
      [] e.k = "wild" -> <<212, 255, 0>>
      [] e.k = "uint" -> EncUint(e.w)
      [] e.k = "int" -> EncInt(e.w)
      [] e.k = "flt" -> <<202>> \o Bytes(<<e.w[3], e.w[4]>>)
      [] e.k = "dbl" -> <<203>> \o Bytes(e.w)
      [] e.k = "bytes" -> Raw(4, e.d)
      [] e.k = "str" -> StrHead(Num(Len(e.d))) \o e.d
      [] e.k = "strh" -> StrHead(e.c)
      [] e.k = "bin" -> BinHead(Num(Len(e.d))) \o e.d
      [] e.k = "binh" -> BinHead(e.c)
      [] e.k = "listh" -> ListHead(e.c)
      [] e.k = "maph" -> MapHead(e.c)
      [] e.k = "ext" -> ExtHead(e.c, e.v)
      [] e.k = "app" -> e.d
(* sum of two-limb number and a small one *)
Plus(c, n) == LET lo == c[2] + n IN <<c[1] + lo \div 65536, lo % 65536>>
(* predictions count the content that goes with a header *)
Predicted(e) == IF e.k \in {"strh", "binh"} THEN Plus(e.c, Len(DirBytes(e))) ELSE Num(Len(DirBytes(e)))

(* which NaN it is depends on the machine *)
RECURSIVE Calm(_)
Calm(v) == CASE v.t = "dbl" -> IF NaN(v.w) THEN [t |-> "dbl", w |-> <<32760, 0, 0, 0>>] ELSE v
             [] v.t = "list" -> [v EXCEPT !.e = [k \in 1 .. Len(v.e) |-> Calm(v.e[k])]]
             [] v.t = "map" -> [v EXCEPT !.e = [k \in 1 .. Len(v.e) |-> <<Calm(v.e[k][1]), Calm(v.e[k][2])>>]]
             [] OTHER -> v

(* --- readers: r = <<1, fields.., next>> or <<0>> --- *)
ReadersOk(e) ==
    LET b == e.b
        p == e.at + 1
        sz == Skip(b, p)
        ri == ReadInt(b, p)
        rd == ReadDouble(b, p)
        rr == ReadRaw(b, p)
        rs == ReadRawSize(b, p)
        rx == ReadExt(b, p)
        rb == ReadBool(b, p)
        rn == ReadNil(b, p)
        rl == ReadCount(b, p, "list")
        rm == ReadCount(b, p, "map")
        rv == Decode(b, p)
        odd == \E k \in 1 .. (Len(b) - 1) : b[k] = 212 /\ b[k + 1] = 255
    IN
    /\ Same("integer", i, IF ri.ok THEN <<1, ri.w, ri.n - 1>> ELSE <<0>>, e.int)
    /\ Same("unsigned integer", i, IF ri.ok THEN <<1, ri.w, ri.n - 1>> ELSE <<0>>, e.uns)
    /\ IF rd.ok /\ NaN(rd.w) THEN Same("double", i, <<1, rd.n - 1>>, <<e.dbl[1], e.dbl[3]>>)
       ELSE Same("double", i, IF rd.ok THEN <<1, rd.w, rd.n - 1>> ELSE <<0>>, e.dbl)
    /\ Same("string", i, IF rr.ok THEN <<1, rr.at - 1, rr.len, rr.n - 1>> ELSE <<0>>, e.str)
    /\ Same("blob", i, IF rr.ok THEN <<1, rr.at - 1, rr.len, rr.n - 1>> ELSE <<0>>, e.bin)
    /\ Same("blob size", i, IF rs.ok THEN <<1, rs.c, rs.n - 1>> ELSE <<0>>, e.bsz)
    /\ Same("extension", i, IF rx.ok THEN <<1, rx.type, rx.at - 1, rx.len, rx.n - 1>> ELSE <<0>>, e.ext)
    /\ Same("boolean", i, IF rb.ok THEN <<1, rb.v, rb.n - 1>> ELSE <<0>>, e.bool)
    /\ Same("nil", i, IF rn.ok THEN <<1, rn.n - 1>> ELSE <<0>>, e.nil)
    /\ Same("list header", i, IF rl.ok THEN <<1, rl.c, rl.n - 1>> ELSE <<0>>, e.list)
    /\ Same("map header", i, IF rm.ok THEN <<1, rm.c, rm.n - 1>> ELSE <<0>>, e.map)
    /\ Same("size", i, IF sz # 0 THEN <<1, sz - p, sz - 1>> ELSE <<0>>, e.size)
    /\ Same("is extension", i, IF IsExt(b, p) THEN 1 ELSE 0, e.isx)
    /\ (sz # 0 => Same("peeked type", i, Peek(b, p), e.peek))
    /\ (e.at = 0 => /\ Same("list count", i, IF rl.ok THEN <<1, rl.c>> ELSE <<0>>, e.blist)
                    /\ Same("map count", i, IF rm.ok THEN <<1, rm.c>> ELSE <<0>>, e.bmap)
                    /\ (sz # 0 => Same("peeked type of a buffer", i, Peek(b, p), e.bpeek)))
    /\ (odd \/ Same("decoded", i, IF rv.ok THEN <<1, Calm(rv.v), rv.n - 1>> ELSE <<0>>,
                              IF e.val[1] = 1 THEN <<1, Calm(e.val[2]), e.val[3]>> ELSE e.val))

Res(c) == c + 1          (* less 0, equal 1, greater 2 *)
StreamCmp(e) ==
    LET a == View(e.b, e.p1 + 1)
        c == View(e.c, e.p2 + 1)
    IN /\ Same("comparison", i, Res(Cmp(a.v, c.v)), e.r)
       /\ Same("first cursor", i, a.n - 1, e.n1)
       /\ Same("second cursor", i, c.n - 1, e.n2)

Step(e) ==
    /\ x' = x
    /\ CASE e.o = "rt" ->
              LET v == Norm(e.v)
                  b == Bts(e) IN
              /\ Same("bytes", i, Encode(v), b)
              /\ Same("decoding succeeds", i, 0, e.rc)
              /\ Same("decoded", i, v, Norm(e.d))
              /\ Same("consumed", i, Len(b), e.n)
              /\ Same("encodes again to the same bytes", i, 1, e.re)
         [] e.o = "deep" ->
              /\ Same("bytes", i, NestBytes(e.n, e.s), e.b)
              /\ Same("consumed", i, Len(e.b), e.m)
              /\ Same("encodes again to the same bytes", i, 1, e.re)
              /\ Same("decoded", i, [k \in 1 .. e.n |-> LvlTok(k, e.s)], e.tk)
              /\ Same("innermost", i, <<97, 98>>, e.leaf)
         [] e.o = "enc" ->
              LET v == Norm(e.v) IN
              /\ Same("bytes", i, Encode(v), Bts(e))
              /\ Same("measuring pass", i, SizeOf(v), e.ms)
              /\ Same("predicted size", i, SizeOf(v), e.gs)
         [] e.o = "dir" ->
              /\ Same("bytes", i, DirBytes(e), e.b)
              /\ Same("measuring pass", i, Num(Len(DirBytes(e))), e.ms)
              /\ (e.sz # <<>> => Same("predicted size", i, Predicted(e), e.sz))
         [] e.o = "path" ->
              LET v == Norm(e.v)
                  b == Encode(v) IN
              /\ Same("growing buffer", i, b, Expand(e.z))
              /\ Same("presized buffer", i, Len(b), e.ps)
              /\ Same("presized bytes", i, 1, e.pe)
              /\ Same("chain of buffers", i, 1, e.ce)
         [] e.o = "fix" ->
              LET d == DirBytes(e) IN
              IF e.off + Len(d) <= e.cap
              THEN /\ Same("fits", i, 0, e.rc)
                   /\ Same("offset", i, e.off + Len(d), e.n)
                   /\ Same("bytes", i, e.pre \o d, SubSeq(e.b, 1, e.off + Len(d)))
                   /\ Holds("rest of the buffer", i, \A k \in (e.off + Len(d) + 1) .. e.cap : e.b[k] = 170)
              ELSE /\ Holds("does not fit", i, e.rc # 0)
                   /\ Same("bytes before", i, e.pre, SubSeq(e.b, 1, e.off))
         [] e.o = "read" -> ReadersOk(e)
         [] e.o = "size" ->
              LET b == Bts(e) IN
              LET q == Skip(b, e.at + 1) IN
              /\ Same("size", i, IF q # 0 THEN <<1, q - 1 - e.at, q - 1>> ELSE <<0>>, e.r)
              /\ (q # 0 => Same("peeked type", i, Peek(b, e.at + 1), e.peek))
              /\ (q # 0 /\ e.dec # 99 => Same("type decoded", i, Peek(b, e.at + 1), e.dec))
         [] e.o = "cmp" -> StreamCmp(e)
         [] e.o = "mcmp" ->
              LET c == Res(Cmp(Norm(e.v), Norm(e.u))) IN
              /\ Same("in-memory comparison", i, c, e.m)
              /\ Same("comparison of encodings", i, c, e.r)
         [] e.o = "chain" ->
              /\ Same("comparison", i, Res(ChainCmp(View(e.b, 1).v, View(e.c, 1).v)), e.r)
              /\ Same("cursors", i, <<ChainSize(e.k, e.n, e.b), ChainSize(e.k, e.n, e.c)>>, <<e.n1, e.n2>>)
         [] e.o = "chainsz" ->
              Same("size", i, IF e.cut = 1 THEN <<0>> ELSE <<1, ChainSize(e.k, e.n, e.b), ChainSize(e.k, e.n, e.b)>>, e.r)
         [] e.o = "junk" -> Holds("comparison result", i, e.r \in {0 - 2, 0 - 1, 0, 1, 2})
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
