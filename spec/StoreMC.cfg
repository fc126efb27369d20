SPECIFICATION Spec
CONSTANTS Size = 3
  MaxId = 7
  MaxBatch = 3
INVARIANTS Faithful Ascending Healed
CHECK_DEADLOCK FALSE
