CONSTANTS
 Starts = 3
 MaxTaken = 6
 Spare = 1
 Workers = 1
INIT Init
NEXT Next
INVARIANTS SameResults SameDraws
VIEW View
ACTION_CONSTRAINT Emit
