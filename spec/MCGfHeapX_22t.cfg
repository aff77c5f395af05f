CONSTANTS MaxOps = 4
Shape0 <- Sh22
SPECIFICATION Spec
INVARIANTS TypeOK Algebra
PROPERTIES Frame SameAsCopy
CHECK_DEADLOCK FALSE
