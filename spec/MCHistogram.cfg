SPECIFICATION Spec
CONSTANTS
 Ids = {1}
 MaxIn = 4
INVARIANTS Counted Nearest
VIEW View
CHECK_DEADLOCK FALSE
