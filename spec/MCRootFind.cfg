SPECIFICATION Spec
CONSTANTS G = 3 V = 1 Maxs = {1, 3} Any = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Bracketed Solved Bounded Towards
