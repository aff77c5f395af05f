SPECIFICATION Spec
CONSTANTS Dim = 4
 MaxH = 2
 MaxE = 3
INVARIANTS Connected Least Numbered
CHECK_DEADLOCK FALSE
