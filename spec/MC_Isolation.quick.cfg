CONSTANTS
 N = 2
 MaxLen = 5
 Data = {1, 2}
INIT Init
NEXT Next
INVARIANT Own
ACTION_CONSTRAINT Emit
