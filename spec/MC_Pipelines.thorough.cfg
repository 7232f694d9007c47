CONSTANT MaxLen = 4
INIT Init
NEXT Next
INVARIANTS Closed WellFormedInv EditInv NotTheParent
ACTION_CONSTRAINT Emit
