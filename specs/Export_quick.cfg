SPECIFICATION Spec
CONSTANTS
  Pool <- PoolSmall
  MaxStates = 2
  Forms = {"default", "name", "list", "mapping"}
  Getters = {"u", "fawa", "meridional mean", "number", "amount", "cube"}
  Names = {"v", "x"}
INVARIANTS Exact Along Nothing InOrder Emit
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
