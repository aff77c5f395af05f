SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3} Kinds = {"imfreq", "imtime", "brzone", "legendre", "cyclat", "retime", "refreq", "discrete"} MaxOps = 16
CHECK_DEADLOCK FALSE
