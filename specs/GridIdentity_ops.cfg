SPECIFICATION Spec
CONSTANTS
  Sizes = {4}
  Radii = {1}
  Rotations = {1, 2}
  MaxGrids = 3
  Depth = 2
INVARIANTS Reflexive Symmetric Transitive OneEntry EqualGridsShareTheirEntry Emit
CHECK_DEADLOCK FALSE
