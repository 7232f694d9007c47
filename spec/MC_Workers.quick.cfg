CONSTANTS
 N = 2
 Limit = 10
 Main = 1
 Levels = {1, 3, 6, 12}
 MaxLen = 2
INIT Init
NEXT Next
INVARIANTS AtLeastOne NeverMore OnlyWorst
ACTION_CONSTRAINT Emit
