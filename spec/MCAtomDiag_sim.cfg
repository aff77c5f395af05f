SPECIFICATION Spec
CONSTANTS N = 2 MaxTerms = 1 MaxOps = 3
CHECK_DEADLOCK FALSE
