SPECIFICATION Spec
CONSTANTS
  Flows <- AllFlows
  Times <- AllTimes
  Depth = 7
INVARIANTS PlanetaryOnce Symmetric RelativeIsSum TimeOfLeft Emit
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
