SPECIFICATION Spec
CONSTANTS
  Ns = {4, 6, 8, 10, 12, 14, 16, 18, 20, 24, 30, 36, 40, 48, 60, 72, 144}
  Centers <- AllCenters
  Presets = {}
  Figures = 0
  Heights = {}
  Strides = 0
INVARIANTS Labelled Middle EachOnce InOrder Periodic Emit
CHECK_DEADLOCK FALSE
