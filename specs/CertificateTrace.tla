-------------------------- MODULE CertificateTrace --------------------------
EXTENDS Certificate, TraceUtil
VARIABLES c, i
Init == c = <<>> /\ i = 1
Step(e) ==
    CASE e.o = "init" -> c' = [dns |-> e.dns, cn |-> e.cn, ip |-> e.ip]
      [] e.o = "name" -> c' = c /\ Same("name matched", i, MatchName(c, e.h, e.w = 1), e.r = 1)
      [] e.o = "san" -> c' = c /\ Same("alternative name matched", i, MatchSan(c, e.h), e.r = 1)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
