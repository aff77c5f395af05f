SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxK = 2
  Labels = {1,2}
INVARIANTS DetIsLeibniz NeverSingular SwapFlips RollFlips InverseIsCofactors Undo
CHECK_DEADLOCK FALSE
VIEW vars
