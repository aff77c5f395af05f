SPECIFICATION Spec
INVARIANTS Counted OnlyWhileOn
PROPERTIES Latched
CHECK_DEADLOCK FALSE
CONSTANTS Sigs = {"INT", "USR2"}
 MaxPend = 2
 MaxNow = 0
 MaxCb = 1
