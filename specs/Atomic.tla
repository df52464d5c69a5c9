------------------------------- MODULE Atomic -------------------------------
(* One variable of 8, 16, 32 or 64 bits changed by operations that each act   *)
(* at one instant on the whole of it.  Values are sequences of 16-bit limbs,  *)
(* most significant first; arithmetic wraps around.                           *)
EXTENDS Integers, Sequences

RECURSIVE Sum(_, _)
Sum(a, b) ==    \* with the carry as an extra first limb
    IF a = <<>> THEN <<0>>
    ELSE LET r == Sum(Tail(a), Tail(b))
             x == a[1] + b[1] + r[1] IN
         <<x \div 65536, x % 65536>> \o Tail(r)
Add(a, b) == Tail(Sum(a, b))
One(a) == [k \in 1 .. Len(a) |-> IF k = Len(a) THEN 1 ELSE 0]
Ones(a) == [k \in 1 .. Len(a) |-> 65535]
RECURSIVE Greater(_, _)
Greater(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] > b[1] ELSE Greater(Tail(a), Tail(b))

(* [v |-> the variable afterwards, r |-> what is returned]; a, b: arguments *)
Did(v, r) == [v |-> v, r |-> r]
Effect(v, f, a, b) ==
    CASE f \in {"load", "load_acq"} -> Did(v, v)
      [] f \in {"store", "store_rls"} -> Did(a, <<>>)
      [] f \in {"faa"} -> Did(Add(v, a), v)
      [] f \in {"aaf", "aaf_rls"} -> Did(Add(v, a), Add(v, a))
      [] f = "add" -> Did(Add(v, a), <<>>)
      [] f \in {"incr", "incr_rls"} -> Did(Add(v, One(v)), <<>>)
      [] f \in {"decr", "decr_rls"} -> Did(Add(v, Ones(v)), <<>>)
      [] f = "fas" -> Did(a, v)
      [] f = "cas" -> IF v = a THEN Did(b, <<1>>) ELSE Did(v, <<0>>)
      [] f = "setmax" -> IF Greater(a, v) THEN Did(a, <<1>>) ELSE Did(v, <<0>>)
=============================================================================
