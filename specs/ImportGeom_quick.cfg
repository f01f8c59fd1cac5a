SPECIFICATION Spec
CONSTANTS
  Circle = 24
  Spacings = {1, 2, 3}
  MaxEdits = 2
INVARIANTS Accepted Unedited Emit
CHECK_DEADLOCK FALSE
