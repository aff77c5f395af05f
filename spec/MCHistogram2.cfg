SPECIFICATION Spec
CONSTANTS
 Ids = {1, 2}
 MaxIn = 2
INVARIANTS Counted Nearest
VIEW View
CHECK_DEADLOCK FALSE
