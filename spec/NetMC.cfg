SPECIFICATION Spec
CONSTANTS MaxT = 3
  Targets = {1}
  MaxIns = {0, 1}
  Persists = {{}, {1}}
  MaxNonce = 3
  Budget = 6
CONSTRAINT Bound
INVARIANTS Satisfiable InService NoneStuck Limits Probed BookOk TimeOk NeverGivenUp
CHECK_DEADLOCK FALSE
