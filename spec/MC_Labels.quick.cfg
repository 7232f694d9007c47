CONSTANTS
 N = 4
 K = 3
INIT Init
NEXT Next
INVARIANTS RoundTrip AllRows
ACTION_CONSTRAINT Emit
