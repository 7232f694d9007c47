CONSTANTS
 Workers = 2
 MaxLen = 6
 Kinds = {"value", "raise_value"}
INIT Init
NEXT Next
INVARIANTS Conserved Progress
ACTION_CONSTRAINT Emit
