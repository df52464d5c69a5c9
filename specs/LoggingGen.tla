----------------------------- MODULE LoggingGen -----------------------------
EXTENDS Logging, TLC, Json
CONSTANT Most
Ops == {"L0", "L1", "L2", "L3", "L4", "T0", "T1", "T2", "m0", "m1", "m2", "m3", "m4"}
Says(o) == o \in {"m0", "m1", "m2", "m3", "m4"}
VARIABLES h
Init == h = <<>>
Next == Len(h) < Most /\ \E o \in Ops : h' = Append(h, o)
Emit == (h # <<>> /\ Says(h[Len(h)])) => PrintT("@@" \o ToJson(h))
=============================================================================
