SPECIFICATION Spec
CONSTANTS
  Ns = {2, 3, 4}
  Finite <- FiniteSmall
  Ks = {1}
INVARIANTS Ordered Bounds Correct Extremes Emit
CHECK_DEADLOCK FALSE
