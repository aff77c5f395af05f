SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS LateFailure InStep
PROPERTIES Collective AllLeave
CHECK_DEADLOCK FALSE
CONSTANTS NR = 3
 MaxN = 1
 MaxRuns = 2
 Env = TRUE
 Rethrow = TRUE
