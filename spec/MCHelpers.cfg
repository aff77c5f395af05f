SPECIFICATION Spec
VIEW View
INVARIANTS OnceOnly NoStray
CHECK_DEADLOCK FALSE
CONSTANTS MaxAct = 3
 MaxDepth = 2
 MaxLen = 7
 Parts = {"g"}
