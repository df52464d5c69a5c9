----------------------------- MODULE TraceUtil -----------------------------
(* Helpers shared by the modules that validate recorded traces. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* Equality that names the first difference in TLC's output. *)
Same(what, i, exp, obs) ==
    IF exp = obs THEN TRUE
    ELSE PrintT("@MISMATCH " \o what \o ", event " \o ToString(i) \o ": expected "
                \o ToString(exp) \o " observed " \o ToString(obs)) /\ FALSE

Holds(what, i, cond) ==
    IF cond THEN TRUE ELSE PrintT("@MISMATCH " \o what \o ", event " \o ToString(i)) /\ FALSE

(* The trace is accepted iff every event was consumed. *)
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    IF d = Len(Trace) THEN TRUE
    ELSE PrintT("@REJECTED " \o ToString(d + 1)) /\ FALSE
=============================================================================
