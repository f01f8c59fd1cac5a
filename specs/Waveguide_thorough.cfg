SPECIFICATION Spec
CONSTANTS
  Ns = {2, 3, 4, 5}
  Finite <- FiniteSmall
  Ks = {0, 1, 2}
INVARIANTS Ordered Bounds Correct Extremes Emit
CHECK_DEADLOCK FALSE
