SPECIFICATION Spec
CONSTANTS Dim = 5
 MaxH = 2
 MaxE = 4
INVARIANTS Connected Least Numbered
CHECK_DEADLOCK FALSE
