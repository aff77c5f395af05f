SPECIFICATION RSpec
CONSTANTS NM = 3
 NR = 3
 MaxTerms = 10
 MaxCoef = 60
 MaxLen = 6
 WordLen = 0
 Track = FALSE
 MaxSteps = 1000
INVARIANTS NormalForm
CHECK_DEADLOCK FALSE
