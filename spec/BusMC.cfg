SPECIFICATION Spec
CONSTANTS Subs = {1, 2, 3}
  MaxLog = 5
INVARIANTS Exact Complete
CHECK_DEADLOCK FALSE
