INIT Init
NEXT Next
CONSTANT MaxLen = 6
CONSTANT Scores = {0, 1, 2, 3}
CONSTANT Limits = {0, 1, 2, 3, 9}
INVARIANT Inv
PROPERTY NoReentry
ACTION_CONSTRAINT Emit
