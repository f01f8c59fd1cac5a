SPECIFICATION Spec
CONSTANTS
  Ns = {4, 5}
  FewBounds = {9999, 1, 4}
INVARIANTS Distinct Monotonic Contiguous OrderFree Complement Hemispheres Emit
CHECK_DEADLOCK FALSE
