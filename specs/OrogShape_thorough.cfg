SPECIFICATION Spec
CONSTANTS
  Arrays <- AllArrays
  Mountains <- AllMountains
  Grids = {6, 8, 9, 12, 20}
  Turns = {1, 3, 5, 11}
INVARIANTS Hull Knots Nearest Emit
PROPERTY Translation
CHECK_DEADLOCK FALSE
