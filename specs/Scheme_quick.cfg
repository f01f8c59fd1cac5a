SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Starts <- AllStarts
  Confs <- QuickConfs
INVARIANTS TypeOK MeanConserved MomentumConserved ZonalFixed NoFilter FilterMean Emit
CHECK_DEADLOCK FALSE
