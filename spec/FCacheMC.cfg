SPECIFICATION Spec
CONSTANTS Heights = {1, 2, 3, 4}
  Sizes = {0, 1, 2, 3, 5}
  Caps = {0, 2, 4, 6}
INVARIANTS Bounded OnlyStored
PROPERTY LowestFirst
CHECK_DEADLOCK FALSE
