SPECIFICATION Spec
CONSTANTS Regs = {0, 1}
 States <- SmallStates
 Indices = {0, 1}
INVARIANTS Distinct Lookup
VIEW MView
CHECK_DEADLOCK FALSE
