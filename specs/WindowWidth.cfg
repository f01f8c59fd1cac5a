SPECIFICATION Spec
CONSTANTS
  MaxWidth = 2200
INVARIANTS Smallest Emit
CHECK_DEADLOCK FALSE
