SPECIFICATION Spec
CONSTANTS
  Ns = {3, 4, 6, 9, 12}
  FewBounds = {0, 3}
INVARIANTS Covered Corners Blank Ordered OneNumber EmitMap
CHECK_DEADLOCK FALSE
