SPECIFICATION Spec
CONSTANTS
  Leaves <- QuickLeaves
  StatesOf <- AllStates
  Depth = 4
  MaxVal = 40000
INVARIANTS SameExpression Switched Emit
PROPERTY Immutable
CHECK_DEADLOCK FALSE
