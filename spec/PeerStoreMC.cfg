SPECIFICATION Spec
CONSTANTS Ips = {1, 2, 3}
  Vals = {1, 2, 3}
INVARIANT Durable
PROPERTY NoOverwrite
CHECK_DEADLOCK FALSE
