SPECIFICATION Spec
CONSTANTS MinSamples = 5
  MaxSources = 6
  MaxAdjust = 2
  Sources = {1, 2, 3, 4, 5, 6, 7}
INVARIANTS Bounded NotEarly OneEach Sorted FromASample Majority
PROPERTY RepeatsInert
CHECK_DEADLOCK FALSE
