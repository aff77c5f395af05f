SPECIFICATION Spec
CONSTANTS
 Ranks = {1,2}
 MaxSamples = 4
INVARIANT Right
CHECK_DEADLOCK FALSE
