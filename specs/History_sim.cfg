SPECIFICATION Spec
CONSTANTS
  States = {"s1", "s2", "s3", "s4", "s5", "s6"}
  Models = {"m0", "m1", "m2", "m3", "m4"}
  Fields = {"pv", "u", "vorticity", "falwa", "energy", "streamfunction", "pv_flux_spectral", "pv_zonalized", "enstrophy"}
  Steps = {0, 1, 3}
  Depth = 12
  CacheSize = 8
  MaxRuns = 5
INVARIANTS Isolation Settings CacheSound MemoSound Emit
CHECK_DEADLOCK FALSE
