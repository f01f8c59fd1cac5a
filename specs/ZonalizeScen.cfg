SPECIFICATION ScenSpec2
CONSTANTS
  MaxLen = 0
  Vals = {}
  Cols = 0
  Rows = 0
  FieldVals = {}
  Levels2 = {}
INVARIANTS NestedAny Extremes Order EmitId
CHECK_DEADLOCK FALSE
