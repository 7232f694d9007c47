CONSTANTS
 Pre = {"A", "B"}
 Pred = {"P", "Q"}
 Vals = {1, 2}
 MaxSteps = 5
INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT PrefixesRejected
INVARIANT UnknownRejected
ACTION_CONSTRAINT Emit
