CONSTANTS
 Forms = {"frame", "other"}
 Ways = {"label", "proba"}
 MaxRows = 3
 MaxCalls = 2
INIT Init
NEXT Next
INVARIANTS SameAnswer SameValue OnePerRow Trained
ACTION_CONSTRAINT Emit
