SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxK = 1
  Labels = {1,2,3}
INVARIANTS DetIsLeibniz NeverSingular SwapFlips RollFlips InverseIsCofactors Undo
CHECK_DEADLOCK FALSE
VIEW vars
