SPECIFICATION Spec
CONSTANTS
  Terms <- AllTerms
  States <- AllStates
  CacheSize = 8
  Depth = 24
INVARIANTS OwnOrography OwnGrid CacheSound Emit
CHECK_DEADLOCK FALSE
