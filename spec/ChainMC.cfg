SPECIFICATION Spec
CONSTANTS N = 3
  MaxBatch = 3
INVARIANTS TreeOk BestOk FollowerOk ReportOk LocateOk
PROPERTY WorkMonotone
CHECK_DEADLOCK FALSE
