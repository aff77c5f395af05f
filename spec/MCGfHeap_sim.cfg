CONSTANTS Kinds <- AllGf
MaxOps = 30
Bound = 40
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
