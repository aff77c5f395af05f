SPECIFICATION Spec
CONSTANTS
 Caps = {1, 2, 3}
 Factors = {2, 3, 4}
 Ids = {1, 2}
 MaxLen = 30
CHECK_DEADLOCK FALSE
