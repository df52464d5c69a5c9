-------------------------------- MODULE Text --------------------------------
(* Zero-terminated text as a sequence of character codes 1..255.              *)
EXTENDS Integers, Sequences

(* Copy into a target of size >= 1 characters: text left, whether cut.        *)
Copy(t, size) == IF Len(t) < size THEN [t |-> t, cut |-> 0]
                 ELSE [t |-> SubSeq(t, 1, size - 1), cut |-> 1]

Sep(c) == c = 47 \/ c = 92
RECURSIVE StripEnd(_)
StripEnd(p) == IF p # <<>> /\ Sep(p[Len(p)]) THEN StripEnd(SubSeq(p, 1, Len(p) - 1)) ELSE p
RECURSIVE LastComp(_)
LastComp(p) == IF p = <<>> \/ Sep(p[Len(p)]) THEN <<>>
               ELSE Append(LastComp(SubSeq(p, 1, Len(p) - 1)), p[Len(p)])
BaseName(p) == IF p = <<>> THEN <<46>>
               ELSE IF StripEnd(p) = <<>> THEN <<47>>
               ELSE LastComp(StripEnd(p))
=============================================================================
