SPECIFICATION Spec
CONSTANTS
  Ns = {4, 9}
  FewBounds = {3}
INVARIANTS Covered Corners Blank Ordered OneNumber EmitMap
CHECK_DEADLOCK FALSE
