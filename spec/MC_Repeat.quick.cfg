CONSTANTS
 Starts = 3
 MaxTaken = 4
 Spare = 1
 Workers = 1
INIT Init
NEXT Next
INVARIANTS SameResults SameDraws
VIEW View
ACTION_CONSTRAINT Emit
