SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3, 4} Ns = 6 MaxOps = 14
CHECK_DEADLOCK FALSE
