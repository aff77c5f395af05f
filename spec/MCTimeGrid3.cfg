SPECIFICATION Spec
CONSTANTS
  Base = 3
  Width = 2
  Regs = {1,2}
INVARIANTS OnTheGrid Expected Laws Associative
CHECK_DEADLOCK FALSE
