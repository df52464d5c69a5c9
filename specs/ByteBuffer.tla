----------------------------- MODULE ByteBuffer -----------------------------
(* An ideal byte array with a capacity. mem has one cell per capacity byte;   *)
(* UNK marks bytes nobody has written. Contents are mem[1..size].             *)
EXTENDS Integers, Sequences
UNK == -1
New(cap) == [mem |-> [j \in 1..cap |-> UNK], size |-> 0]
Wrap(bs) == [mem |-> bs, size |-> Len(bs)]
Cap(b) == Len(b.mem)
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y

Store(mem, ix, bs) == [j \in 1..Len(mem) |-> IF j > ix /\ j <= ix + Len(bs) THEN bs[j - ix] ELSE mem[j]]

(* Write bs at ix: refused unless the range lies within the capacity.         *)
CanSet(b, ix, n) == ix + n <= Cap(b)
Set(b, ix, bs) == [mem |-> Store(b.mem, ix, bs), size |-> Max(b.size, ix + Len(bs))]

(* Read n bytes at ix: refused unless the range is non-empty and within the   *)
(* contents.                                                                  *)
CanRead(b, ix, n) == n > 0 /\ ix + n <= b.size
Read(b, ix, n) == SubSeq(b.mem, ix + 1, ix + n)

Forget(mem, size) == [j \in 1..Len(mem) |-> IF j <= size THEN mem[j] ELSE UNK]
Truncate(b, n) == [mem |-> Forget(b.mem, b.size - n), size |-> b.size - n]
Grow(b, cap) == [mem |-> [j \in 1..cap |-> IF j <= b.size THEN b.mem[j] ELSE UNK], size |-> b.size]

(* Variable-length integers: 7 bits a byte, low bits first, the high bit set  *)
(* on every byte but the last. Numbers are pairs of 16-bit limbs <<hi, lo>>.  *)
Groups(v) == LET hi == v[1] lo == v[2] IN
    << lo % 128, (lo \div 128) % 128, (lo \div 16384) + (hi % 32) * 4, (hi \div 32) % 128, hi \div 4096 >>
VarLen(v) == LET g == Groups(v) IN
    IF g[5] # 0 THEN 5 ELSE IF g[4] # 0 THEN 4 ELSE IF g[3] # 0 THEN 3 ELSE IF g[2] # 0 THEN 2 ELSE 1
VarBytes(v) == LET n == VarLen(v) IN [j \in 1..n |-> Groups(v)[j] + IF j < n THEN 128 ELSE 0]
(* Length of the number at ix, 0 if it does not end inside the buffer or has  *)
(* more than five bytes, UNK if it depends on unwritten bytes.                *)
RECURSIVE VarEnd(_, _, _)
VarEnd(b, ix, k) ==
    IF k > 5 \/ ix + k > Cap(b) THEN 0
    ELSE IF b.mem[ix + k] = UNK THEN UNK
    ELSE IF b.mem[ix + k] < 128 THEN k ELSE VarEnd(b, ix, k + 1)
VarSize(b, ix) == VarEnd(b, ix, 1)
VarValue(b, ix, n) ==
    LET g == [j \in 1..5 |-> IF j <= n THEN b.mem[ix + j] % 128 ELSE 0] IN
    << (g[3] \div 4) + g[4] * 32 + (g[5] % 16) * 4096, g[1] + g[2] * 128 + (g[3] % 4) * 16384 >>

(* Equality up to unwritten bytes. *)
Agrees(exp, obs) == Len(exp) = Len(obs) /\ \A j \in 1..Len(exp) : exp[j] = UNK \/ exp[j] = obs[j]
Contents(b) == SubSeq(b.mem, 1, b.size)
=============================================================================
