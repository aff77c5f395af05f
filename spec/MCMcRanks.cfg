SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS LateFailure InStep
PROPERTIES Collective AllLeave
CHECK_DEADLOCK FALSE
CONSTANTS NR = 2
 MaxN = 2
 MaxRuns = 2
 Env = TRUE
 Rethrow = TRUE
