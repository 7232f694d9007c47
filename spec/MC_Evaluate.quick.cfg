CONSTANTS
 N = 4
 K = 2
 Subs <- SubsAll
INIT Init
NEXT Next
INVARIANTS Honest ScoreOfPredictions FailedIsEmpty
ACTION_CONSTRAINT Emit
