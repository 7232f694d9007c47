CONSTANTS
 MaxLen = 3
INIT Init
NEXT Next
INVARIANT NeverUnfitted
PROPERTY NotLost
ACTION_CONSTRAINT Emit
