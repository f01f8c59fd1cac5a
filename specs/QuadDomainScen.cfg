SPECIFICATION ScenSpec
CONSTANTS
  MaxLen = 0
  Vals = {}
INVARIANTS Valid BoxComplement EmitScen
CHECK_DEADLOCK FALSE
