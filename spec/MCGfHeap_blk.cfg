CONSTANTS Kinds <- BlockKinds
MaxOps = 30
Bound = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
