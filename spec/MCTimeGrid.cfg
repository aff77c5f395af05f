SPECIFICATION Spec
CONSTANTS
  Base = 2
  Width = 3
  Regs = {1,2}
INVARIANTS OnTheGrid Expected Laws Associative
CHECK_DEADLOCK FALSE
