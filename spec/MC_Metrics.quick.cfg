CONSTANTS
 Kind = "labels"
 N = 4
INIT Init
NEXT Next
INVARIANTS PerfectIsBest CorrectionHelps
ACTION_CONSTRAINT Emit
