SPECIFICATION Spec
CONSTANTS
 Ids = {1, 2, 3}
 MaxIn = 30
CHECK_DEADLOCK FALSE
