SPECIFICATION Spec
CONSTANTS
  States = {"s1", "s2", "s3", "s6"}
  Models = {"m0", "m1", "m2", "m4"}
  Fields = {"pv", "u", "falwa", "energy"}
  Steps = {0, 2}
  Depth = 2
  CacheSize = 2
  MaxRuns = 2
INVARIANTS Isolation Settings CacheSound MemoSound Emit
CHECK_DEADLOCK FALSE
