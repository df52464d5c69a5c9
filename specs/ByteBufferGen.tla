--------------------------- MODULE ByteBufferGen ---------------------------
EXTENDS ByteBuffer, TLC, Json
CONSTANTS Depth, Caps
FAR == 100000
VARIABLES b, hist, c0
Init == \E c \in Caps, w \in {0, 1} :
            /\ b = IF w = 1 THEN Wrap([j \in 1..c |-> 200 + j]) ELSE New(c)
            /\ c0 = <<c, w>> /\ hist = <<>>
Bytes(n) == [j \in 1..n |-> (Len(hist) + 1) * 16 + j]
Calls == {<<"set", k, n>> : k \in 0..3, n \in {1, 2}} \cup {<<"set", FAR, 1>>, <<"set", 1, FAR>>}
         \cup {<<"app", 0, n>> : n \in {1, 2}}
         \cup {<<"get", k, n>> : k \in {0, 1, 2}, n \in {0, 1, 2}} \cup {<<"get", 1, FAR>>, <<"get", FAR, 2>>}
         \cup {<<"trunc", 0, n>> : n \in {0, 1, 2, FAR}}
         \cup {<<"grow", 0, n>> : n \in {1, 2, 5}} \cup {<<"fits", 0, n>> : n \in {1, 2, 5}}
Apply(c) ==
    CASE c[1] = "set" -> IF CanSet(b, c[2], c[3]) THEN <<Set(b, c[2], Bytes(c[3])), 1, <<>> >> ELSE <<b, 0, <<>> >>
      [] c[1] = "app" -> IF CanSet(b, b.size, c[3]) THEN <<Set(b, b.size, Bytes(c[3])), 1, <<>> >> ELSE <<b, 0, <<>> >>
      [] c[1] = "get" -> IF CanRead(b, c[2], c[3]) THEN <<b, c[3], Read(b, c[2], c[3])>> ELSE <<b, 0, <<>> >>
      [] c[1] = "trunc" -> IF c[3] <= b.size THEN <<Truncate(b, c[3]), 1, <<>> >> ELSE <<b, 0, <<>> >>
      [] c[1] = "grow" -> <<IF c[3] <= Cap(b) THEN b ELSE Grow(b, c[3]), 1, <<>> >>
      [] c[1] = "fits" -> <<b, IF c[3] <= Cap(b) THEN 1 ELSE 0, <<>> >>
Next == /\ Len(hist) < Depth
        /\ \E c \in Calls :
            LET a == Apply(c)
                h == Append(hist, <<c, a[2], a[3], Contents(a[1]), Cap(a[1])>>) IN
            /\ b' = a[1] /\ hist' = h /\ c0' = c0
            /\ Len(h) = Depth => PrintT("@@" \o ToJson([c |-> c0, h |-> h]))
=============================================================================
