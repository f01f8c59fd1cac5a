SPECIFICATION Spec
CONSTANTS
  Lats <- LatsThorough
  MaxData = 4
  Grids = {7}
INVARIANTS Weights Reproduces Poles SortedInterp Emit
CHECK_DEADLOCK FALSE
