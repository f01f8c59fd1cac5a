SPECIFICATION Spec
CONSTANTS
  Lats <- LatsQuick
  MaxData = 3
  Grids = {4, 5}
INVARIANTS Weights Reproduces Poles SortedInterp Emit
CHECK_DEADLOCK FALSE
