SPECIFICATION Spec
CONSTANTS
  N = 6
  P = 6
  Amps = {0, 1, 3}
  Phases = {0, 1}
  MaxSteps = 1
INVARIANTS EnvelopeMoves DominantKept Symmetric Single MeanPower Emit
CHECK_DEADLOCK FALSE
