CONSTANTS
 Forms = {"frame", "other"}
 Ways = {"label", "proba"}
 MaxRows = 2
 MaxCalls = 2
INIT Init
NEXT Next
INVARIANTS SameAnswer SameValue OnePerRow Trained
ACTION_CONSTRAINT Emit
