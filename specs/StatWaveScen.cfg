SPECIFICATION ScenSpec
CONSTANTS
  Ns = {}
  Orders = {}
  MaxOps = 0
  Vals = {}
  QVals = {}
  Strides = {}
  Offsets = {}
  Thresholds = {}
INVARIANTS Signs Poles Hemispheres EmitStat
CHECK_DEADLOCK FALSE
