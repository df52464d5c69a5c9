-------------------------------- MODULE Typed --------------------------------
(* Values stored in a list or under text keys through typed calls, and read   *)
(* through typed calls.  A place holds an entry: the kind of the value and    *)
(* its number.  A typed reading shows the number if the kind is the one asked *)
(* for, and nothing (0) otherwise.                                            *)
EXTENDS Integers, Sequences

Kinds == <<"integer", "double", "string", "geojson", "bytes", "list", "map", "boolean", "pair", "rec">>
(* the kind a typed storing call makes *)
Stored(form) == CASE form \in {"int64", "integer"} -> "integer"
                  [] form \in {"double", "as_double"} -> "double"
                  [] form \in {"str", "string"} -> "string"
                  [] OTHER -> form
Readings == <<"int64", "double", "str", "integer", "as_double", "string", "bytes", "list", "map">>
Nothing == [k |-> "nothing", v |-> 0]
Entry(form, v) == [k |-> Stored(form), v |-> v]
Read(e, form) == IF e.k = Stored(form) THEN e.v ELSE 0
Shown(e) == [j \in 1 .. Len(Readings) |-> Read(e, Readings[j])]
(* what a value can be taken for, and where a fallback is shown instead *)
From(e) == [j \in 1 .. Len(Kinds) |-> IF e.k = Kinds[j] THEN 1 ELSE 0]
Else(e) == [j \in 1 .. 6 |-> LET k == <<"integer", "double", "string", "geojson", "bytes", "boolean">>[j] IN IF e.k = k THEN 0 ELSE 1]
Own(e) == CASE e.k = "geojson" -> e.v
            [] e.k = "boolean" -> 1 + 3 * (e.v % 2)
            [] OTHER -> 0

(* storing in a list: at place i from 0, a gap being filled with nothing *)
Gap(n) == [j \in 1 .. n |-> Nothing]
Inserted(s, i, e) == IF i <= Len(s) THEN SubSeq(s, 1, i) \o <<e>> \o SubSeq(s, i + 1, Len(s))
                     ELSE s \o Gap(i - Len(s)) \o <<e>>
Result(s, op, i, e) == CASE op = "append"  -> Append(s, e)
                         [] op = "prepend" -> <<e>> \o s
                         [] op = "insert"  -> Inserted(s, i, e)
                         [] op = "set"     -> IF i < Len(s) THEN [s EXCEPT ![i + 1] = e] ELSE Inserted(s, i, e)
At(s, i) == IF i < Len(s) THEN s[i + 1] ELSE Nothing
=============================================================================
