SPECIFICATION ScenSpec
CONSTANTS
  N = 1
  P = 1
  Amps = {}
  Phases = {}
  MaxSteps = 0
INVARIANTS InRange SmoothBounds EmitScen
CHECK_DEADLOCK FALSE
