----------------------------- MODULE BcryptTrace ----------------------------
EXTENDS Bcrypt, TraceUtil
VARIABLES known, i
Init == known = <<>> /\ i = 1

(* known: the hash of the password and setting last worked out, so that other *)
(* spellings of the same need not be worked out again                          *)
Step(e) ==
    CASE e.o = "init" -> known' = HashText(e.p, e.s) /\ Same("accepted", i, 1, e.r) /\ Same("hash", i, known', e.h)
      [] e.o = "again" ->   (* same password; the setting spells the same salt otherwise *)
           /\ known' = known
           /\ Holds("same setting", i, Proper(e.s) = SubSeq(known, 1, 29))
           /\ Same("accepted", i, 1, e.r)
           /\ Same("hash from another spelling", i, known, e.h)
      [] e.o = "bad" -> known' = known /\ Same("accepted", i, Setting(e.s), e.r = 1)
      [] e.o = "salt" ->   (* of 16 random bytes *)
           /\ known' = known
           /\ Same("made a salt", i, 1, e.r)
           /\ Holds("a salt that can be used", i, Setting(e.s) /\ Len(e.s) = 29 /\ Proper(e.s) = e.s)
      [] e.o = "same" ->   (* two texts compared *)
           /\ known' = known
           /\ Same("equal hashes", i, e.a = e.b, e.r = 1)
      [] e.o = "const" ->   (* at the fixed setting: as the general function does *)
           /\ known' = known
           /\ Same("accepted", i, 1, e.r)
           /\ Same("hash at the fixed setting", i, e.g, e.h)
           /\ Holds("fixed setting", i, Setting(e.h) /\ Cost(e.h) = 10)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
