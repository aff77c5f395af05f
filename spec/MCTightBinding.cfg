SPECIFICATION Spec
CONSTANTS Ids = {1, 2} MaxOps = 3 MaxTerms = 2
VIEW View
INVARIANTS Hermitian PeriodicK Origin DualOk
CHECK_DEADLOCK FALSE
