SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 4} MaxItems = 3 Spawn = TRUE MaxSlice = 40
CHECK_DEADLOCK FALSE
INVARIANTS Once Complete
PROPERTY Terminates
