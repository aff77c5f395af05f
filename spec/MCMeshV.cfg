SPECIFICATION Spec
CONSTANTS Ids = {1} Kinds = {"imfreq", "imtime", "brzone", "legendre", "cyclat", "retime", "refreq", "discrete"} MaxOps = 1
INVARIANTS OneToOne Interpolation SelfClosest DualOk
VIEW View
CHECK_DEADLOCK FALSE
