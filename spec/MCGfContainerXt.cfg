CONSTANTS Gfs <- XG
Views <- XV
SGfs <- XS
SViews <- XT
Blocks <- XB
BViews <- XW
Part <- Part0
MaxBlocks = 2
MaxOps = 4
INVARIANT Inv
PROPERTY Frame
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
