SPECIFICATION Spec
CONSTANTS
  Sizes = {4, 6}
  Radii = {1, 2, 3}
  Rotations = {1, 2, 3}
  MaxGrids = 2
  Depth = 0
INVARIANTS Reflexive Symmetric Transitive OneEntry EqualGridsShareTheirEntry Emit
CHECK_DEADLOCK FALSE
