SPECIFICATION ZSpec
CONSTANTS
  MaxLen = 0
  Vals = {}
  Cols = 2
  Rows = 3
  FieldVals = {0, 1, 2}
  Levels2 <- LevelsOdd
INVARIANTS Nested NonNegative Undisturbed FEmit
CHECK_DEADLOCK FALSE
