CONSTANTS
 Eta = 2
 Min = 1
 Max = 4
 Skip = 0
 NInit = 8
 Workers = 2
 MaxLen = 6
 Vals = {1, 2}
 MaxFull = 0
INIT Init
NEXT Next
INVARIANTS Quota NothingDue OnlyPromotedAbove OncePerRung ConstantJobs
PROPERTY NotWorse
ACTION_CONSTRAINT Emit
