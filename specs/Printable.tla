----------------------------- MODULE Printable -----------------------------
(* The printable form of a value, as character codes. A value without a       *)
(* printable form of its own (nothing, an empty byte value) shows as <NULL>   *)
(* inside lists, maps and pairs.                                              *)
EXTENDS Values

Null == <<60, 78, 85, 76, 76, 62>>
Own(v) == ~ (v.t = "none" \/ (v.t = "bin" /\ v.b = <<>>))

Quoted(b) == <<34>> \o b \o <<34>>
Hex(b) == Flat([k \in 1 .. Len(b) |->
    (IF k = 1 THEN <<>> ELSE <<32>>) \o <<HexDigitUpper(b[k] \div 16), HexDigitUpper(b[k] % 16)>>])

RECURSIVE Nat10(_)
Nat10(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Nat10(n \div 10), 48 + (n % 10))
(* doubles that are n / 4 for n of modest size: exponent and mantissa give n  *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Quarters(w) == (* |value| * 4, for values below 2^18 *)
    LET e == (w[1] % 32768) \div 16 - 1023 + 2
        m == 65536 * (16 + (w[1] % 16)) + w[2] (* 21 bits: the value is m * 2^(e-20) *)
    IN IF DoubleZero(w) THEN 0 ELSE IF e <= 20 THEN m \div Pow2(20 - e) ELSE m * Pow2(e - 20)
Frac(r) == CASE r = 0 -> <<>> [] r = 1 -> <<46, 50, 53>> [] r = 2 -> <<46, 53>> [] r = 3 -> <<46, 55, 53>>
Double(w) == LET q == Quarters(w) IN
    (IF Negative(w) THEN <<45>> ELSE <<>>) \o Nat10(q \div 4) \o Frac(q % 4)

Join(ss) == Flat([k \in 1 .. Len(ss) |-> IF k = 1 THEN ss[k] ELSE <<44, 32>> \o ss[k]])

RECURSIVE Text(_), Inside(_)
Inside(v) == IF Own(v) THEN Text(v) ELSE Null
Text(v) ==
    CASE v.t = "nil" -> <<78, 73, 76>>
      [] v.t = "bool" -> IF v.v = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
      [] v.t = "int" -> SignedDec(v.w)
      [] v.t = "dbl" -> Double(v.w)
      [] v.t \in {"str", "geo"} -> Quoted(v.b)
      [] v.t = "bin" -> Hex(v.b)
      [] v.t = "list" -> <<91>> \o Join([k \in 1 .. Len(v.e) |-> Inside(v.e[k])]) \o <<93>>
      [] v.t = "map" -> <<123>> \o Join([k \in 1 .. Len(v.e) |-> Inside(v.e[k][1]) \o <<58>> \o Inside(v.e[k][2])]) \o <<125>>
      [] v.t = "pair" -> <<40>> \o Inside(v.e[1]) \o <<44, 32>> \o Inside(v.e[2]) \o <<41>>
      [] v.t = "wild" -> <<42>>
      [] v.t = "inf" -> <<73, 78, 70>>
=============================================================================
