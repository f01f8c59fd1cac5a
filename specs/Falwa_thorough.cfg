SPECIFICATION ZSpec
CONSTANTS
  MaxLen = 0
  Vals = {}
  Cols = 4
  Rows = 3
  FieldVals = {0, 1}
  Levels2 <- LevelsTiny
INVARIANTS Nested NonNegative Undisturbed FEmit
CHECK_DEADLOCK FALSE
