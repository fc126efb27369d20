SPECIFICATION Spec
CONSTANTS Budget = 4
  Cap = 1
  MaxT = 1500
INVARIANTS Allowed Settled
CHECK_DEADLOCK FALSE
