SPECIFICATION Spec
CONSTANTS
  N = 60
  Amplitudes <- QuickAmplitudes
  Centers <- QuickCenters
  Widths <- QuickWidths
  Times = {1}
  Depth = 3
INVARIANTS NoWindAtPoles Regular Relations NeverMore Emit
PROPERTIES Kept
CHECK_DEADLOCK FALSE
