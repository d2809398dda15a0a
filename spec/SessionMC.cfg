SPECIFICATION Spec
CONSTANTS
  Names = {"m1", "m2"}
  Good = {"g1", "g2"}
  Bad = {"b1"}
  Requests = {"spe"}
  Depth = 6
INVARIANTS Latest Held NoEmptyName
PROPERTY Isolated
CHECK_DEADLOCK FALSE
