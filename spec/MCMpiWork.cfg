SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3} MaxItems = 2 Spawn = TRUE MaxSlice = 12
CHECK_DEADLOCK FALSE
INVARIANTS Once Complete
PROPERTY Terminates
