SPECIFICATION Spec
CONSTANTS
  Pool = {0, 1, 2, 3, 4}
  MaxLen = 3
  Depth = 2
  Steps = {1, 2}
  Kinds = {"array", "int", "float", "complex", "big", "state", "str", "none", "tuple", "list", "dict"}
INVARIANTS OnlyValid SliceSane Associative Emit EmitTable
PROPERTY Immutable
CHECK_DEADLOCK FALSE
