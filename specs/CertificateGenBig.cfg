INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
NameChars = {97, 66, 46, 42, 0}
HostChars = {97, 65, 98, 46, 42}
MaxName = 5
MaxHost = 4
IpChars = {58, 49, 48, 46, 103, 70}
MaxIp = 7
