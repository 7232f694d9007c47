CONSTANTS
 Workers = 2
 Size = 2
 NStart = 2
 MaxN = 4
 Dim = 1
 Vals = {1, 2, 3}
 MaxRestarts = 1
 Outs = {"err", "exc"}
INIT Init
NEXT Next
INVARIANTS Bounded OnlyGood GainsAll NeverIdle TopKept NonDominatedKept
ACTION_CONSTRAINT Emit
