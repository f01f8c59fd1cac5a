SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Vals <- ValsQuick
INVARIANTS Incremental Valid Complement BoxComplement Mirror Monotone Emit
CHECK_DEADLOCK FALSE
