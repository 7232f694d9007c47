CONSTANTS
 Jobs = {"unset", "none", "all", "n"}
 Cores = {1, 5}
 Presets = {"unset", "simple", "performance", "unknown"}
 Posts = {"unset", "best", "ensemble"}
 Lengths = {"unset", "on", "off"}
 StepLimits = {0, 1, 2, 5}
 MaxFits = 1
INIT Init
NEXT Next
INVARIANTS Working Limits Offers
ACTION_CONSTRAINT Emit
