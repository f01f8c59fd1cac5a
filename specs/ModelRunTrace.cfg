SPECIFICATION TraceSpec
CONSTANTS
  T0s = {}
  Dts = {}
  Spans = {}
  Saves = {}
INVARIANTS TypeOK HorizonInv NoOvershoot ScheduleInv SavedIncreasing StartSaved EmitVerdict
PROPERTIES Total
CHECK_DEADLOCK FALSE
