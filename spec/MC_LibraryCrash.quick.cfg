INIT Init
NEXT Next
VIEW View
CONSTANT MaxLen = 4
CONSTANT Scores = {0, 1, 2, 3}
CONSTANT Limits = {1, 2}
CONSTANT MaxInt = 1
INVARIANT OfferedUsable OfferedOk NoneBetterLost
ACTION_CONSTRAINT Emit
