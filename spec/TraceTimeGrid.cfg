SPECIFICATION TSpec
CONSTANTS
  Base = 256
  Width = 8
  Regs = {1, 2, 3, 4}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
