SPECIFICATION Spec
INVARIANTS Range ZonalMean Ordered Emit
CHECK_DEADLOCK FALSE
