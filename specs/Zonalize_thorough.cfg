SPECIFICATION ZSpec
CONSTANTS
  MaxLen = 0
  Vals = {}
  Cols = 2
  Rows = 4
  FieldVals = {0, 1, 2}
  Levels2 <- LevelsSmall
INVARIANTS Nested Extremes Order ZEmit
CHECK_DEADLOCK FALSE
