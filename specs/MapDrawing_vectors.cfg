SPECIFICATION Spec
CONSTANTS
  Ns = {4, 12, 24}
  Centers <- Zeros
  Presets = {}
  Figures = 0
  Heights = {1, 2, 3, 7, 13, 19, 25, 37, 73}
  Strides = 1
INVARIANTS Labelled Middle EachOnce InOrder Periodic Thinned Emit
CHECK_DEADLOCK FALSE
