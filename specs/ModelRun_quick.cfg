SPECIFICATION Spec
CONSTANTS
  T0s <- QuickT0s
  Dts = {1, 2, 3}
  Spans <- QuickSpans
  Saves = {0, 1, 2, 3, 4, 5, 7, 20}
INVARIANTS TypeOK HorizonInv NoOvershoot ScheduleInv SavedIncreasing StartSaved DueInv Emit
PROPERTIES SavedGrows Terminates
CHECK_DEADLOCK FALSE
