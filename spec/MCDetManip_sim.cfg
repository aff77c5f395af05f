SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxK = 2
  Labels = {1,2,3}

CHECK_DEADLOCK FALSE

