SPECIFICATION RSpec
CONSTANTS NM = 2
 NR = 2
 MaxTerms = 4
 MaxCoef = 4
 MaxLen = 4
 WordLen = 0
 Track = TRUE
 MaxSteps = 4
INVARIANTS Represents Faithful NormalForm
CHECK_DEADLOCK FALSE
VIEW RView
