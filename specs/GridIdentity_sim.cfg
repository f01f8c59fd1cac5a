SPECIFICATION Spec
CONSTANTS
  Sizes = {4, 6}
  Radii = {1, 2}
  Rotations = {1, 2}
  MaxGrids = 4
  Depth = 8
INVARIANTS Transitive OneEntry EqualGridsShareTheirEntry Emit
CHECK_DEADLOCK FALSE
