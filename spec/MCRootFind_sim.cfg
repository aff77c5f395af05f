SPECIFICATION Spec
CONSTANTS G = 3 V = 2 Maxs = {1, 2, 5, 40} Any = TRUE
CHECK_DEADLOCK FALSE
