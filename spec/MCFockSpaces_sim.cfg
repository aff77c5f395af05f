SPECIFICATION Spec
CONSTANTS Regs = {0, 1, 2}
 States <- ManyStates
 Indices = {0, 1, 2}
INVARIANTS Distinct Lookup
CHECK_DEADLOCK FALSE
