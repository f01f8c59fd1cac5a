SPECIFICATION Spec
CONSTANTS
  Planets = {1, 3, 4}
  Forms <- QuickForms
  MaxStates = 2
  Depth = 3
  Start = {0, 1}
INVARIANTS Survive TimesStay NoneTwice SameNumber Consistent Emit
CHECK_DEADLOCK FALSE
