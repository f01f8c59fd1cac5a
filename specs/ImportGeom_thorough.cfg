SPECIFICATION Spec
CONSTANTS
  Circle = 72
  Spacings = {2, 3, 6, 9}
  MaxEdits = 2
INVARIANTS Accepted Unedited Emit
CHECK_DEADLOCK FALSE
