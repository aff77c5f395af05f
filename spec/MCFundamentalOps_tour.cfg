SPECIFICATION Spec
CONSTANTS Regs = {0, 1}
 Names = {1, 2}
 MaxLen = 3
INVARIANTS AllDistinct PosInverse
CHECK_DEADLOCK FALSE
