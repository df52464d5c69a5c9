----------------------------- MODULE TextTrace -----------------------------
(* String and geojson values. hs records the hash answered for each text.     *)
EXTENDS Text, TraceUtil
VARIABLES t, hs, i
Init == t = <<>> /\ hs = <<>> /\ i = 1
Known(x) == {j \in 1..Len(hs) : hs[j][1] = x}
Step(e) ==
    CASE e.o = "init" -> t' = e.t /\ hs' = (IF e.fresh = 1 THEN <<>> ELSE hs)
      [] e.o = "len" -> Same("length", i, Len(t), e.r) /\ UNCHANGED <<t, hs>>
      [] e.o = "text" -> Same("text", i, t, e.w) /\ UNCHANGED <<t, hs>>
      [] e.o = "str" -> Same("printable form", i, <<34>> \o t \o <<34>>, e.w) /\ UNCHANGED <<t, hs>>
      [] e.o = "hash" ->
            /\ t' = t
            /\ \A j \in Known(t) : Same("hash of equal text", i, hs[j][2], e.h)
            /\ hs' = IF Known(t) = {} THEN Append(hs, <<t, e.h>>) ELSE hs
      [] e.o = "base" -> Same("base name", i, BaseName(e.t), e.w) /\ Same("base name length", i, Len(BaseName(e.t)), e.n) /\ UNCHANGED <<t, hs>>
      [] e.o = "copy" -> LET c == Copy(e.t, e.n) IN Same("copy", i, c.t, e.w) /\ Same("cut", i, c.cut, e.r) /\ UNCHANGED <<t, hs>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
