SPECIFICATION Spec
CONSTANTS
  Begin <- Begins
  Steps <- AllSteps
  Ticks = 4
INVARIANTS One Close Precise Short Emit
PROPERTY Later
CHECK_DEADLOCK FALSE
