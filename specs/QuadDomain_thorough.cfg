SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Vals <- ValsThorough
INVARIANTS Incremental Valid Complement BoxComplement Mirror Monotone Emit
CHECK_DEADLOCK FALSE
