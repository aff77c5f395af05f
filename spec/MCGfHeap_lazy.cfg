CONSTANTS Kinds <- LazyKinds
MaxOps = 30
Bound = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
