CONSTANTS
 N = 7
 Cls = TRUE
INIT Init
NEXT Next
INVARIANTS OrdinalOK IndicatorOK SameVerdict TotalTreatment DroppedOnlyIfConstant
ACTION_CONSTRAINT Emit
