SPECIFICATION Spec
CONSTANTS
  Ns = {2,3,4,5,6,7,8,9,10,11,12,13,15,18,20,24,30,36,45,60,72}
INVARIANTS Contiguous Inside Covered Uniform Symmetric FullTurn Emit
CHECK_DEADLOCK FALSE
