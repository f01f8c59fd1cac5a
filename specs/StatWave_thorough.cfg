SPECIFICATION StatSpec
CONSTANTS
  Ns = {2, 4, 5}
  Orders = {2, 4}
  MaxOps = 1
  Vals = {}
  QVals <- QSmall
  Strides = {1, 3}
  Offsets = {0, 5}
  Thresholds = {0, 1, 3}
INVARIANTS Linear Signs Poles Hemispheres EmitStat
PROPERTIES Monotone Reversed
CHECK_DEADLOCK FALSE
