CONSTANTS
 Deviations = 3
INIT Init
NEXT Next
INVARIANTS Sane NoTrace
ACTION_CONSTRAINT Emit
