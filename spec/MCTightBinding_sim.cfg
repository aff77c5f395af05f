SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3} MaxOps = 10 MaxTerms = 2
CHECK_DEADLOCK FALSE
