SPECIFICATION GenSpec
CONSTANTS
  Names = {"m1", "m2", "m3"}
  Good = {"g1", "g2", "g3"}
  Bad = {"b1", "j1"}
  Requests = {"spe", "python", "namespace", "graph"}
  Depth = 11
CHECK_DEADLOCK FALSE
