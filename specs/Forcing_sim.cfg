SPECIFICATION Spec
CONSTANTS
  Leaves <- AllLeaves
  StatesOf <- AllStates
  Depth = 9
  MaxVal = 40000
INVARIANTS SameExpression Switched Emit
PROPERTY Immutable
CHECK_DEADLOCK FALSE
