SPECIFICATION Spec
CONSTANTS
  T0s <- ThoroughT0s
  Dts = {1, 2, 3, 4, 5, 7}
  Spans <- ThoroughSpans
  Saves = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 20, 30}
INVARIANTS TypeOK HorizonInv NoOvershoot ScheduleInv SavedIncreasing StartSaved DueInv Emit
PROPERTIES SavedGrows Terminates
CHECK_DEADLOCK FALSE
