SPECIFICATION SpecSome
CONSTANTS
  Ns = {12, 18, 36}
  FewBounds = {}
INVARIANTS Covered Corners Blank Ordered OneNumber EmitMap
CHECK_DEADLOCK FALSE
