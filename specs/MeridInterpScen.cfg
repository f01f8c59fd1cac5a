SPECIFICATION ScenSpec
CONSTANTS
  Lats = {}
  MaxData = 0
  Grids = {}
INVARIANTS Weights Reproduces Poles Emit
CHECK_DEADLOCK FALSE
