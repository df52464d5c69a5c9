------------------------------- MODULE Forward ------------------------------
(* Objects over caller-supplied operations.  Each public call goes exactly    *)
(* once to one operation, with the object and the arguments, and returns its  *)
(* answer; without that operation it returns a fixed value.  All values are   *)
(* texts (numbers in decimal, pointers as p1, p2, ...).                       *)
EXTENDS Integers, Sequences

(* calls of each kind: <<call, operation, value without it>>; a value "?" is  *)
(* not documented                                                             *)
Calls == [
  stream |-> {<<"read", "read", "0">>, <<"write", "write", "1">>},
  iterator |-> {<<"has_next", "has_next", "0">>, <<"next", "next", "0">>},
  timer |-> {<<"timedout", "timedout", "0">>, <<"timeslice", "timeslice", "0">>},
  module |-> {<<"configure", "update", "1">>, <<"update", "update", "1">>, <<"validate", "validate", "1">>,
              <<"apply_record", "apply_record", "1">>, <<"apply_stream", "apply_stream", "1">>},
  aerospike |-> {<<"rec_create", "rec_create", "1">>, <<"rec_update", "rec_update", "1">>, <<"rec_exists", "rec_exists", "1">>,
                 <<"rec_remove", "rec_remove", "1">>, <<"log", "log", "1">>, <<"get_current_time", "get_current_time", "0">>,
                 <<"set_context", "set_context", "2">>, <<"get_config", "get_config", "0">>},
  rec |-> {<<"remove", "remove", "1">>, <<"ttl", "ttl", "0">>, <<"last_update_time", "last_update_time", "0">>, <<"gen", "gen", "0">>,
           <<"size", "size", "0">>, <<"memory_size", "memory_size", "0">>, <<"device_size", "device_size", "0">>,
           <<"key", "key", "0">>, <<"setname", "setname", "0">>, <<"numbins", "numbins", "0">>, <<"bin_names", "bin_names", "?">>,
           <<"digest", "digest", "0">>, <<"set_ttl", "set_ttl", "?">>, <<"drop_key", "drop_key", "?">>, <<"hashcode", "hashcode", "0">>,
           <<"foreach", "foreach", "0">>, <<"get", "get", "0">>, <<"set", "set", "1">>,
           <<"get_int64", "get", "0">>, <<"get_double", "get", "0">>, <<"get_str", "get", "0">>, <<"get_geojson_str", "get", "0">>,
           <<"get_integer", "get", "0">>, <<"get_as_double", "get", "0">>, <<"get_string", "get", "0">>, <<"get_geojson", "get", "0">>,
           <<"get_bytes", "get", "0">>, <<"get_list", "get", "0">>, <<"get_map", "get", "0">>,
           <<"set_int64", "set", "1">>, <<"set_double", "set", "1">>, <<"set_str", "set", "1">>, <<"set_integer", "set", "1">>,
           <<"set_as_double", "set", "1">>, <<"set_string", "set", "1">>, <<"set_geojson", "set", "1">>, <<"set_bytes", "set", "1">>,
           <<"set_list", "set", "1">>, <<"set_map", "set", "1">>}]
Kinds == DOMAIN Calls
Operations(kind) == {c[2] : c \in Calls[kind]} \cup {"destroy"}
Row(kind, call) == CHOOSE c \in Calls[kind] : c[1] = call

(* typed reading of a bin: the answer's content or the answer itself if it is *)
(* of the type asked for                                                      *)
Wanted == [get_int64 |-> "int", get_double |-> "double", get_str |-> "str", get_geojson_str |-> "geo", get_integer |-> "int",
           get_as_double |-> "double", get_string |-> "str", get_geojson |-> "geo", get_bytes |-> "bytes", get_list |-> "list", get_map |-> "map"]
Contents == {"get_int64", "get_double", "get_str", "get_geojson_str"}
Answer(call, a) == IF call \notin DOMAIN Wanted THEN a.p
                   ELSE IF a.t # Wanted[call] THEN "0"
                   ELSE IF call \in Contents THEN a.c ELSE a.p

(* what arrives at the operation: the object, then the arguments; the value   *)
(* of a typed setting arrives as a new value with that content; a             *)
(* configuration arrives as an update event                                   *)
Arrives(call, args) == IF call = "configure" THEN <<"self", "event0", args[1]>> ELSE <<"self">> \o args

(* o = [kind, ops, heap, refs]; kind "null" objects have no operations *)
Expected(o, call, args) == LET op == Row(o.kind, call)[2] IN
    IF op \in o.ops THEN <<<<op>> \o Arrives(call, args)>> ELSE <<>>
Returned(o, call, a, r) == LET row == Row(o.kind, call) IN
    IF row[2] \in o.ops THEN r = Answer(call, a) ELSE row[3] = "?" \/ r = row[3]
=============================================================================
