SPECIFICATION Spec
CONSTANTS N = 7
  MaxBatch = 4
  Steps = 7
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
