SPECIFICATION Spec
CONSTANTS
  Ns = {16, 20, 36}
  Centers <- FigureCenters
  Presets <- AllPresets
  Figures = 1
  Heights = {}
  Strides = 0
INVARIANTS Labelled Middle EachOnce InOrder Periodic Emit
CHECK_DEADLOCK FALSE
