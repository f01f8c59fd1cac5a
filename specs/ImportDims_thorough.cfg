SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2}
  Coords = {"none", "unique", "repeated"}
  MaxDims = 3
INVARIANTS All Times Emit
CHECK_DEADLOCK FALSE
