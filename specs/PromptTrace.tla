----------------------------- MODULE PromptTrace ----------------------------
EXTENDS Prompt, TraceUtil
VARIABLES in, i
Init == in = <<>> /\ i = 1
Step(e) ==
    IF e.o = "init" THEN in' = e.t
    ELSE LET a == Ask(in, IF e.g = 1 THEN e.s ELSE <<>>, e.size) IN
         /\ IF e.o = "ask"
            THEN /\ Same("password", i, a.p, e.p)
                 /\ Same("terminated", i, 1, e.z)
            ELSE /\ Same("hashed", i, 1, e.r)
                 /\ e.cp = a.p => Same("hash of the password", i, e.ch, e.h)
         /\ Same("shown again", i, 1, e.e)
         /\ Holds("hidden while typing", i, e.et \in {0, 7})
         /\ in' = a.rest
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
