SPECIFICATION Spec
CONSTANTS
  Ns = {4, 6, 8, 10, 12, 24, 36}
  Centers <- AllCenters
  Presets = {}
  Figures = 0
  Heights = {}
  Strides = 0
INVARIANTS Labelled Middle EachOnce InOrder Periodic Emit
CHECK_DEADLOCK FALSE
