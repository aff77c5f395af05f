SPECIFICATION Spec
CONSTANTS Regs = {0, 1, 2}
 Names = {1, 2, 3}
 MaxLen = 3
INVARIANTS AllDistinct PosInverse
PROPERTY Keeps
VIEW MView
CHECK_DEADLOCK FALSE
