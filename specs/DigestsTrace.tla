---------------------------- MODULE DigestsTrace ----------------------------
EXTENDS Digests, TraceUtil
VARIABLES b, i
Init == b = <<>> /\ i = 1

(* b: the bytes fed to the running digest so far *)
Step(e) ==
    CASE e.o = "init" -> b' = <<>>
      [] e.o = "feed" -> b' = b \o e.b
      [] e.o = "final" -> b' = b /\ Same("digest of what was fed", i, Ripemd160(b), e.r)
      [] e.o = "rmd" -> b' = b /\ Same("RIPEMD-160", i, Ripemd160(e.b), e.r)
      [] e.o = "dig" -> b' = b /\ Same("digest", i, Ripemd160(e.b), e.r)
      [] e.o = "two" -> b' = b /\ Same("digest of two parts", i, Ripemd160(e.b \o e.c), e.r)
      [] e.o = "sha" -> b' = b /\ Same("SHA-1", i, Sha1(e.b), e.r)
      [] e.o = "zeros" -> b' = b /\ Same("digest of a great number of zeros", i, BigZeros[e.f][e.k], e.r)
      [] e.o = "text" -> b' = b /\ Same("text of a digest", i, Hexed(e.b), e.r)
      [] e.o = "cmp" -> b' = b /\ Same("order of digests", i, Order(e.b, e.c), Sign(e.r))
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
