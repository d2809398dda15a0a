SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Lean = TRUE
INVARIANTS Laws ByParts Refusals
PROPERTY Immutable
CHECK_DEADLOCK FALSE
