SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Starts <- AllStarts
  Confs <- ThoroughConfs
INVARIANTS TypeOK MeanConserved MomentumConserved ZonalFixed NoFilter FilterMean Emit
CHECK_DEADLOCK FALSE
