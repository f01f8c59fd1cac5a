SPECIFICATION Spec
CONSTANTS
  N = 36
  Amplitudes <- QuickAmplitudes
  Centers <- QuickCenters
  Widths <- QuickWidths
  Times = {0, 1}
  Depth = 2
INVARIANTS NoWindAtPoles Regular Relations NeverMore Emit
PROPERTIES Kept
CHECK_DEADLOCK FALSE
