CONSTANTS
 Deviations = 2
INIT Init
NEXT Next
INVARIANTS Sane NoTrace
ACTION_CONSTRAINT Emit
