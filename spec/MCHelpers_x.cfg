SPECIFICATION Spec
INVARIANTS OnceOnly NoStray
CHECK_DEADLOCK FALSE
CONSTANTS MaxAct = 12
 MaxDepth = 3
 MaxLen = 60
 Parts = {"x"}
