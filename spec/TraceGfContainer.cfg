CONSTANTS Gfs <- MGfs
Views <- MViews
SGfs <- MS
SViews <- MT
Blocks <- MB
BViews <- MW
Part <- Part0
MaxBlocks = 3
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
