CONSTANTS
 Pipes = {1, 2}
 Retry = 3
 MaxLen = 5
INIT Init
NEXT Next
INVARIANT LoopOK
ACTION_CONSTRAINT Emit
