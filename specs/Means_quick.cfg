SPECIFICATION Spec
CONSTANTS
  Ns = {2, 3}
  Blocks = 0
INVARIANTS Union Constant Bounded Emit
CHECK_DEADLOCK FALSE
