SPECIFICATION Spec
CONSTANTS
  Contents = {1}
  Ctors = {"grid", "spectral"}
  NStates = 1
  Depth = 3
INVARIANTS OrderIndependent MemoSound Emit
PROPERTIES Isolated Stable
CHECK_DEADLOCK FALSE
