SPECIFICATION Spec
INVARIANTS Counted OnlyWhileOn
PROPERTIES Latched
CHECK_DEADLOCK FALSE
CONSTANTS Sigs = {"INT", "TERM", "XCPU", "QUIT", "USR1", "USR2"}
 MaxPend = 3
 MaxNow = 2500
 MaxCb = 2
