CONSTANTS
 Total = 12
 MaxLen = 4
 Steps = {1, 6}
 Limits = {4}
INIT Init
NEXT Next
INVARIANTS Bounded OnlyLast Disjoint Consistent
ACTION_CONSTRAINT Emit
