SPECIFICATION Spec
CONSTANTS Regs = {0, 1, 2}
 Names = {1, 2, 3, 4, 5, 6}
 MaxLen = 3
INVARIANTS AllDistinct PosInverse
CHECK_DEADLOCK FALSE
