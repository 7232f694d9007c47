CONSTANTS
 N = 5
 K = 2
 Subs <- SubsAll
INIT Init
NEXT Next
INVARIANTS Honest ScoreOfPredictions FailedIsEmpty
ACTION_CONSTRAINT Emit
