CONSTANTS
 Reports = {1, 2}
 MaxLen = 6
INIT Init
NEXT Next
INVARIANTS OnceEach UpToDate
ACTION_CONSTRAINT Emit
