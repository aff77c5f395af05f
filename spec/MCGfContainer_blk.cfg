CONSTANTS Gfs <- MGfs
Views <- MViews
SGfs <- MS
SViews <- MT
Blocks <- MB
BViews <- MW
Part <- Part0
MaxBlocks = 3
MaxOps = 30
Kinds <- BlockKinds
INVARIANT Inv
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
