SPECIFICATION Spec
CONSTANTS
 Caps = {1, 2, 3}
 Factors = {2, 3, 4}
 Ids = {1}
 MaxLen = 14
INVARIANTS Inv Same
VIEW View
CHECK_DEADLOCK FALSE
