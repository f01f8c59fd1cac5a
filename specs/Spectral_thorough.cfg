SPECIFICATION Spec
CONSTANTS
  Deg <- QDeg
  Ntr = 5
  Starts <- QStarts
  Scalars <- MoreScalars
  Vectors <- DefaultVectors
  Depth = 3
INVARIANTS TypeOK Truncated InverseInv DiffusionInv Emit
CHECK_DEADLOCK FALSE
