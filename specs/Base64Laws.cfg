INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
Bytes = {0, 3, 77, 240, 251, 255}
MaxBytes = 4
Chars = {61, 65, 47, 122, 45, 43}
MaxChars = 5
