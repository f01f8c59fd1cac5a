SPECIFICATION Spec
CONSTANTS
  Deg <- QDeg
  Ntr = 7
  Starts <- QStarts
  Scalars <- DefaultScalars
  Vectors <- DefaultVectors
  Depth = 2
INVARIANTS TypeOK Truncated InverseInv DiffusionInv Emit
CHECK_DEADLOCK FALSE
