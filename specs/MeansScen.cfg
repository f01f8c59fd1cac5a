SPECIFICATION ScenSpec
CONSTANTS
  Ns = {}
  Blocks = 3
INVARIANTS Union Bounded Emit
CHECK_DEADLOCK FALSE
