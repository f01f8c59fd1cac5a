SPECIFICATION Spec
CONSTANTS
  Arrays <- AllArrays
  Mountains <- AllMountains
  Grids = {6, 8}
  Turns = {5}
INVARIANTS Hull Knots Nearest Emit
PROPERTY Translation
CHECK_DEADLOCK FALSE
