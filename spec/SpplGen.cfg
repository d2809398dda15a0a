SPECIFICATION GenSpec
CONSTANTS
  Depth = 14
  Lean = FALSE
CHECK_DEADLOCK FALSE
