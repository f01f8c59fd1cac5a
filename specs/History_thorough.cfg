SPECIFICATION Spec
CONSTANTS
  States = {"s1", "s3"}
  Models = {"m0", "m1", "m2"}
  Fields = {"pv", "falwa"}
  Steps = {2}
  Depth = 3
  CacheSize = 2
  MaxRuns = 3
INVARIANTS Isolation Settings CacheSound MemoSound Emit
CHECK_DEADLOCK FALSE
