SPECIFICATION TSpec
CONSTANT Regs = {0, 1, 2}
INVARIANT Distinct
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
