SPECIFICATION Spec
INVARIANT EmitVerdict
PROPERTIES Decided Monotone
CHECK_DEADLOCK FALSE
