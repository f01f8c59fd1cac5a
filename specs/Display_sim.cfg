SPECIFICATION Spec
CONSTANTS
  Names <- AllNames
  Orders <- AllOrders
  Coeffs <- AllCoeffs
  MaxModels = 3
  Depth = 14
INVARIANTS ReadBack Current Emit

CHECK_DEADLOCK FALSE
