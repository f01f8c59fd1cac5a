SPECIFICATION Spec
CONSTANTS
  Ns = {3, 4, 5, 6, 9}
  FewBounds = {9999, 0, 1, 2, 5}
INVARIANTS Distinct Monotonic Contiguous OrderFree Complement Hemispheres Emit
CHECK_DEADLOCK FALSE
