CONSTANTS
 N = 5
 K = 3
INIT Init
NEXT Next
INVARIANTS RoundTrip AllRows
ACTION_CONSTRAINT Emit
