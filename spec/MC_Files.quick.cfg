CONSTANTS
 MaxCols = 4
 Formats = {"csv", "arff"}
INIT Init
NEXT Next
INVARIANTS NothingLost InOrder
ACTION_CONSTRAINT Emit
