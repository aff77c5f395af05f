SPECIFICATION Spec
CONSTANTS
 Caps = {1, 2, 3, 4}
 Factors = {2, 3, 4, 5}
 Ids = {1}
 MaxLen = 40
INVARIANTS Inv Same
VIEW View
CHECK_DEADLOCK FALSE
