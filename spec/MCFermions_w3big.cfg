SPECIFICATION WSpec
CONSTANTS NM = 3
 NR = 1
 MaxTerms = 1
 MaxCoef = 1
 MaxLen = 1
 WordLen = 6
 Track = TRUE
 MaxSteps = 0
INVARIANTS WCanonical WAction WDagger WSplit
CHECK_DEADLOCK FALSE
