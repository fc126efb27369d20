SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4}
  Times = {0, 1, 2, 3, 4, 5, 6}
  Thresholds = {0, 1, 2, 3}
INVARIANTS NeverEarly Once NoneLate NotLost Spaced WaitOk
CHECK_DEADLOCK FALSE
