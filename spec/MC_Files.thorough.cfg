CONSTANTS
 MaxCols = 5
 Formats = {"csv", "arff"}
INIT Init
NEXT Next
INVARIANTS NothingLost InOrder
ACTION_CONSTRAINT Emit
