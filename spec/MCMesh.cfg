SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3} Kinds = {"imfreq", "imtime"} MaxOps = 3
INVARIANTS OneToOne
VIEW View
CHECK_DEADLOCK FALSE
