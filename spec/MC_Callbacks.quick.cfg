CONSTANTS
 N = 2
 MaxDone = 2
 Behaviours = {"ok", "error", "timeout"}
 Times = {0, 13}
INIT Init
NEXT Next
INVARIANTS SeenAll InOrder
ACTION_CONSTRAINT Emit
