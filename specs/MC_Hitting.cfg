SPECIFICATION Spec
CONSTANTS
  N = 8
  A = 0
  B = 2
INVARIANTS Sides LayersNest
CHECK_DEADLOCK FALSE
