SPECIFICATION Spec
CONSTANTS
  Contents = {1, 2, 3}
  Ctors = {"grid", "spectral", "wind", "vorticity"}
  NStates = 3
  Depth = 10
INVARIANTS OrderIndependent MemoSound Emit
PROPERTIES Isolated Stable
CHECK_DEADLOCK FALSE
