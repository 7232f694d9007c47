CONSTANTS
 Workers = 2
 NStart = 3
 MaxLen = 4
 MaxRes = 0
INIT Init
NEXT Next
INVARIANTS Constant Once NotOutstanding Accounted StopsExactly
ACTION_CONSTRAINT Emit
