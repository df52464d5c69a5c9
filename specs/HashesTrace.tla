---------------------------- MODULE HashesTrace -----------------------------
EXTENDS Hashes, TraceUtil
VARIABLES b, i
Init == b = <<>> /\ i = 1

(* one byte string, then every function's answers for it at several addresses *)
Answers(f, w, got) == \A k \in 1 .. Len(got) : Same(f, i, w, got[k])
Step(e) ==
    CASE e.o = "init" -> b' = e.b
      [] e.o = "h" ->
           /\ b' = b
           /\ Answers("FNV-1a, 32 bits", Fnv32(b), e.fnv32)
           /\ Answers("FNV-1a, 64 bits", Fnv64(b), e.fnv64)
           /\ Answers("Jenkins, 32 bits", Jen32(b), e.jen32)
           /\ Answers("Jenkins, 64 bits", Jen64(b), e.jen64)
           /\ Answers("Murmur 3", LET m == Murmur(b) IN m[1] \o m[2], e.mur)
           /\ Answers("wyhash, 64 bits", Wy64(b), e.wy64)
           /\ Answers("wyhash, 32 bits", Wy32(b), e.wy32)
      [] e.o = "ptr" -> b' = b /\ Answers("address hash", Ptr32(e.w), e.r)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
