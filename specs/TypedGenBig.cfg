CONSTANTS MaxLen = 3
  Forms = {"int64", "double", "str", "integer", "as_double", "string", "bytes", "list", "map", "geojson", "boolean", "nil"}
  Containers = {"a", "g", "f", "h", "m"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
