SPECIFICATION FScenSpec
CONSTANTS
  MaxLen = 0
  Vals = {}
  Cols = 0
  Rows = 0
  FieldVals = {}
  Levels2 = {}
INVARIANTS NonNegative Undisturbed FEmit
CHECK_DEADLOCK FALSE
