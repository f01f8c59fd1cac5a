SPECIFICATION Spec
CONSTANTS
  Leaves <- QuickLeaves
  StatesOf <- AllStates
  Depth = 3
  MaxVal = 40000
INVARIANTS SameExpression Switched Emit
PROPERTY Immutable
CHECK_DEADLOCK FALSE
