SPECIFICATION SpecSome
CONSTANTS
  Ns = {12, 18, 20, 24, 36, 45, 72, 90}
  FewBounds = {}
INVARIANTS Covered Corners Blank Ordered OneNumber EmitMap
CHECK_DEADLOCK FALSE
