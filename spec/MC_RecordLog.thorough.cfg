CONSTANTS
 Reports = {1, 2}
 MaxLen = 8
INIT Init
NEXT Next
INVARIANTS OnceEach UpToDate
ACTION_CONSTRAINT Emit
