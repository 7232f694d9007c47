CONSTANTS
 Pipes = {1, 2}
 Retry = 2
 MaxLen = 4
INIT Init
NEXT Next
INVARIANT LoopOK
ACTION_CONSTRAINT Emit
