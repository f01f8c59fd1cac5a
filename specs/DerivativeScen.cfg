SPECIFICATION ScenSpec
CONSTANTS
  Ns = {}
  Orders = {}
  MaxOps = 0
  Vals = {}
INVARIANTS PoleZero Antisymmetric Emit
CHECK_DEADLOCK FALSE
