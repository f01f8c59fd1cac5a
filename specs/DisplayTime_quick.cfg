SPECIFICATION Spec
CONSTANTS
  Begin <- Begins
  Steps <- QuickSteps
  Ticks = 3
INVARIANTS One Close Precise Short Emit
PROPERTY Later
CHECK_DEADLOCK FALSE
