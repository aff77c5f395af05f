SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3} Kinds = {"imfreq", "imtime", "brzone", "legendre"} MaxOps = 3
INVARIANTS OneToOne
VIEW View
CHECK_DEADLOCK FALSE
