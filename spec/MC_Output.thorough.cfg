CONSTANTS
 MaxLen = 5
 Pres = {"absent", "empty", "nonempty", "hidden", "subdir", "file", "linked"}
 Bads = {"", "time0", "timeneg", "timenone", "eval0", "evalneg", "jobs0", "jobsneg"}
INIT Init
NEXT Next
INVARIANTS FitKeeps NoDirNoFiles
ACTION_CONSTRAINT Emit
