SPECIFICATION ScenSpec
CONSTANTS
  Ns = {}
  FewBounds = {}
INVARIANTS Distinct Monotonic Contiguous OrderFree Complement Hemispheres Emit
CHECK_DEADLOCK FALSE
