CONSTANTS
 Inds = {1, 2}
 Data = {1, 2}
 MaxLen = 5
 MaxPipes = 3
INIT Init
NEXT Next
INVARIANTS Independent Faithful
ACTION_CONSTRAINT Emit
