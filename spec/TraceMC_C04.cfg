SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS One = 16777216
 RateOne = 1048576
 ChkSel = TRUE
 ChkAcc = FALSE
 ChkStat = TRUE
 ChkCtl = FALSE
