SPECIFICATION Spec
INVARIANTS Decided Emit
CHECK_DEADLOCK FALSE
