SPECIFICATION Spec
CONSTANTS
  Planets = {1, 2, 3, 4, 5}
  Forms <- AllForms
  MaxStates = 4
  Depth = 6
  Start = {0, 1, 3}
INVARIANTS Survive TimesStay NoneTwice SameNumber Emit
CHECK_DEADLOCK FALSE
