SPECIFICATION ScenSpec
CONSTANTS
  Ns = {}
  Finite = {}
  Ks = {}
INVARIANTS Ordered Bounds Correct Extremes Emit
CHECK_DEADLOCK FALSE
