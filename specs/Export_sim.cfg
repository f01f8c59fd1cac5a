SPECIFICATION Spec
CONSTANTS
  Pool <- PoolSmall
  MaxStates = 5
  Forms = {"default", "name", "list", "mapping"}
  Getters = {"u", "v", "pv", "avo", "vo", "energy", "double", "fawa", "zonal mean", "meridional mean", "number", "amount", "cube", "unknown", "spectral"}
  Names = {"u", "v", "x", "pv"}
INVARIANTS Exact Along Nothing InOrder Emit
CHECK_DEADLOCK FALSE
