CONSTANTS MaxOps = 3
Shape0 <- Sh0
SPECIFICATION Spec
INVARIANTS TypeOK Algebra
PROPERTIES Frame SameAsCopy
CHECK_DEADLOCK FALSE
