SPECIFICATION Spec
CONSTANTS Ids = {1, 2} Ns = 2 MaxOps = 3
VIEW View
INVARIANTS Homomorphism Symmetric
CHECK_DEADLOCK FALSE
