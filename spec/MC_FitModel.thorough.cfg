CONSTANTS
 Fits = 2
 MaxOut = 3
 Vals = {0, 1, 2}
 Endings = {"done", "timeout", "kbd"}
INIT Init
NEXT Next
INVARIANTS ModelIsBest StartConsistent HasModel
ACTION_CONSTRAINT Emit
