SPECIFICATION Spec
CONSTANTS Ids = {1, 2} MaxOps = 2 MaxTerms = 3
VIEW View
INVARIANTS Hermitian PeriodicK Origin DualOk
CHECK_DEADLOCK FALSE
