SPECIFICATION Spec
CONSTANTS
  Names <- QuickNames
  Orders = {1, 2}
  Coeffs = {1, 2}
  MaxModels = 1
  Depth = 4
INVARIANTS ReadBack Distinct Current Emit
PROPERTY Harmless
CHECK_DEADLOCK FALSE
