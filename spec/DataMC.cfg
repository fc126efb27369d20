SPECIFICATION Spec
CONSTANTS MaxT = 2
  Budget = 6
  Cap = 2
  Jobs = {"scan", "part", "tx", "import"}
  Batches = {1, 2, 3}
INVARIANTS Satisfiable FilterHeaders FiltersHeld ScanOk PendingOk QueueOk TxOk OneRequest Recovers
CHECK_DEADLOCK FALSE
