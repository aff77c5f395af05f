SPECIFICATION Spec
CONSTANTS
 Ranks = {1,2,3}
 MaxSamples = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
