SPECIFICATION Spec
INVARIANTS Refines Live
CHECK_DEADLOCK FALSE
CONSTANTS H = 2
 Size = 2
 MaxPos = 5
