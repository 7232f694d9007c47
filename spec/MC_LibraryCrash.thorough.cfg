INIT Init
NEXT Next
VIEW View
CONSTANT MaxLen = 5
CONSTANT Scores = {0, 1, 2, 3}
CONSTANT Limits = {1, 2, 3}
CONSTANT MaxInt = 2
INVARIANT OfferedUsable OfferedOk NoneBetterLost
ACTION_CONSTRAINT Emit
