SPECIFICATION Spec
CONSTANTS
  Terms <- FewTerms
  States <- FewStates
  CacheSize = 2
  Depth = 2
INVARIANTS OwnOrography OwnGrid Repeatable CacheSound Emit
CHECK_DEADLOCK FALSE
