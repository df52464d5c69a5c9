----------------------------- MODULE Base64Laws -----------------------------
(* Laws of base-64 over small universes, and the inputs to replay.            *)
EXTENDS Base64, TLC, Json
CONSTANTS Bytes, MaxBytes, Chars, MaxChars
VARIABLES k, v

RECURSIVE Strings(_, _)
Strings(S, n) == IF n = 0 THEN {<<>>} ELSE LET r == Strings(S, n - 1) IN r \cup {Append(x, c) : x \in {y \in r : Len(y) = n - 1}, c \in S}
Init == \/ k = "e" /\ v \in Strings(Bytes, MaxBytes)
        \/ k = "d" /\ v \in Strings(Chars, MaxChars)
Next == FALSE /\ UNCHANGED <<k, v>>

Laws == IF k = "e"
        THEN /\ Decode(Encode(v)) = v
             /\ Len(Encode(v)) = TextLen(Len(v))
             /\ (v = <<>> \/ WellFormed(Encode(v)))
        ELSE WellFormed(v) =>
             (* decoding loses only the bits no byte takes up *)
             LET t == Encode(Decode(v)) IN
             /\ Len(t) = Len(v)
             /\ \A j \in 1 .. (Len(v) - 1 - Padding(v)) : t[j] = v[j]
Emit == PrintT("@@" \o ToJson([k |-> k, v |-> v,
            e |-> IF k = "e" THEN Encode(v) ELSE IF WellFormed(v) THEN Decode(v) ELSE <<>>,
            ok |-> k = "e" \/ WellFormed(v)]))
=============================================================================
