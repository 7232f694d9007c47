INIT Init
NEXT Next
CONSTANT MaxLen = 4
CONSTANT Dim = 2
CONSTANT Vals = {0, 1, 2}
INVARIANT FrontExact RanksAgree BestRanked SomeParents SomeRemovable
ACTION_CONSTRAINT Emit
