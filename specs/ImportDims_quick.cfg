SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3}
  Coords = {"none", "unique", "repeated"}
  MaxDims = 2
INVARIANTS All Times Emit
CHECK_DEADLOCK FALSE
