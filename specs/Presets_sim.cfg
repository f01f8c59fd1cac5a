SPECIFICATION Spec
CONSTANTS
  N = 24
  Amplitudes <- AllAmplitudes
  Centers <- AllCenters
  Widths <- AllWidths
  Times = {0, 1, 2}
  Depth = 5
INVARIANTS Regular NeverMore Emit
PROPERTIES Kept
CHECK_DEADLOCK FALSE
