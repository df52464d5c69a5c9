----------------------------- MODULE FaultText ------------------------------
(* Texts made with one allocation failing. A printed value is complete, or    *)
(* missing, or has <NULL> in place of the one part that could not be made. A  *)
(* growing text keeps what it has, followed by the beginning of the piece     *)
(* that did not fit.                                                          *)
EXTENDS Printable, StringBuilder, Text

RECURSIVE Gaps(_)
Part(v) == IF Own(v) THEN {Null} \cup Gaps(v) ELSE {}
Around(parts, k, y) == [parts EXCEPT ![k] = y]
Gaps(v) ==
    CASE v.t = "list" ->
           LET ps == [k \in 1 .. Len(v.e) |-> Inside(v.e[k])] IN
           UNION {{<<91>> \o Join(Around(ps, k, y)) \o <<93>> : y \in Part(v.e[k])} : k \in 1 .. Len(v.e)}
      [] v.t = "map" ->
           LET ps == [k \in 1 .. Len(v.e) |-> Inside(v.e[k][1]) \o <<58>> \o Inside(v.e[k][2])] IN
           UNION {{<<123>> \o Join(Around(ps, k, y \o <<58>> \o Inside(v.e[k][2]))) \o <<125>> : y \in Part(v.e[k][1])}
                  \cup {<<123>> \o Join(Around(ps, k, Inside(v.e[k][1]) \o <<58>> \o y)) \o <<125>> : y \in Part(v.e[k][2])}
                  : k \in 1 .. Len(v.e)}
      [] v.t = "pair" ->
           {<<40>> \o y \o <<44, 32>> \o Inside(v.e[2]) \o <<41>> : y \in Part(v.e[1])}
           \cup {<<40>> \o Inside(v.e[1]) \o <<44, 32>> \o y \o <<41>> : y \in Part(v.e[2])}
      [] OTHER -> {}

Printed(v, failed, text) == text = Text(v) \/ (failed /\ text \in Gaps(v))

Piece(p, t) == IF p = "h" THEN HexText(t) ELSE t
Begun(old, piece, text) == \E n \in 0 .. (Len(piece) - 1) : text = old \o SubSeq(piece, 1, n)
=============================================================================
