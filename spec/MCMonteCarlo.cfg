SPECIFICATION Spec
VIEW View
INVARIANTS OneDecision SignIsProduct Stat Completed NoWarmupMeasure StatusMeans ErrorNeverNormal CountsAgree
CHECK_DEADLOCK FALSE
CONSTANTS One = 4
 RateOne = 1024
 ChkSel = FALSE
 ChkAcc = TRUE
 ChkStat = TRUE
 ChkCtl = TRUE
 MaxRuns = 1
 MaxN = 2
 MaxLen = 1
 Cplx = FALSE
 Faults = FALSE
 Rich = FALSE
