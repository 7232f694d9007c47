CONSTANTS
 Total = 40
 MaxEval = 12
 F = 300
 Steps = {3, 8, 44}
 MaxEvals = 2
 Fits = 2
INIT Init
NEXT Next
INVARIANTS NeverPastEnd SearchWithin Reserved TotalKept
ACTION_CONSTRAINT Emit
