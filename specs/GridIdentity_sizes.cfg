SPECIFICATION Spec
CONSTANTS
  Sizes = {35, 36, 60, 61}
  Radii = {1}
  Rotations = {1}
  MaxGrids = 2
  Depth = 0
INVARIANTS Reflexive Symmetric Transitive OneEntry EqualGridsShareTheirEntry Emit
CHECK_DEADLOCK FALSE
