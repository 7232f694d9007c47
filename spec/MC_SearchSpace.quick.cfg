CONSTANTS
 Ops = {"A", "B"}
 Hps = {"p"}
 Vals = {1, 2}
 Shared = {"s"}
 MaxLen = 3
INIT Init
NEXT Next
INVARIANT MergeSymmetric
INVARIANT MergeIdempotent
INVARIANT MergeContainsBoth
INVARIANT OneOperatorPerClass
INVARIANT OffersAll
INVARIANT NothingInvented
ACTION_CONSTRAINT Emit
