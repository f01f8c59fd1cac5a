SPECIFICATION Spec
CONSTANTS
  Deg <- FineDeg
  Ntr = 119
  Starts <- FineStarts
  Scalars <- FineScalars
  Vectors <- DefaultVectors
  Depth = 2
INVARIANTS TypeOK Truncated InverseInv DiffusionInv Emit
CHECK_DEADLOCK FALSE
