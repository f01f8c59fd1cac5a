SPECIFICATION Spec
CONSTANTS
  N = 8
  P = 8
  Amps = {0, 1, 3}
  Phases = {0, 3}
  MaxSteps = 1
INVARIANTS EnvelopeMoves DominantKept Symmetric Single MeanPower Emit
CHECK_DEADLOCK FALSE
