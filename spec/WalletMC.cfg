SPECIFICATION Spec
CONSTANTS N = 3
  MaxOuts = 2
  MaxPasses = 3
INVARIANTS Exact UsedOk Sane
CHECK_DEADLOCK FALSE
