SPECIFICATION ScenSpec
CONSTANTS
  Rows = 0
  Cols = 0
  Vals = {}
  Windows = {}
  MaxOps = 0
INVARIANTS Result Commute Constants ZonalMean EmitScen
CHECK_DEADLOCK FALSE
