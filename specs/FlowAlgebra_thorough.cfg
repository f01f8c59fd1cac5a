SPECIFICATION Spec
CONSTANTS
  Flows <- AllFlows
  Times <- QuickTimes
  Depth = 3
INVARIANTS PlanetaryOnce Symmetric RelativeIsSum TimeOfLeft Emit
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
