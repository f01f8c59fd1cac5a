SPECIFICATION Spec
CONSTANTS
  Pool = {0, 1, 2, 3, 4, 5}
  MaxLen = 2
  Depth = 8
  Steps = {1, 2}
  Kinds = {"array", "int", "float", "complex", "big", "state", "str", "none", "tuple", "list", "dict"}
INVARIANTS OnlyValid Emit 
PROPERTY Immutable
CHECK_DEADLOCK FALSE
