SPECIFICATION Spec
CONSTANTS MaxOps = 5
INVARIANTS AsIfFresh Ordered
CHECK_DEADLOCK FALSE
