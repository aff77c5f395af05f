SPECIFICATION TSpec
CONSTANT Regs = {0, 1, 2, 3}
INVARIANTS AllDistinct PosInverse
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
