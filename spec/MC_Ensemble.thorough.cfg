CONSTANTS
 M = 3
 R = 2
 MaxV = 2
 Size = 3
 Metric = "neg_mean_squared_error"
INIT Init
NEXT Next
INVARIANTS TotalIsStep Greedy SameTo
ACTION_CONSTRAINT Emit
