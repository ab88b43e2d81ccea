SPECIFICATION Spec
CONSTANTS
  N = 10
  A = 0
  B = 0
INVARIANTS Sides LayersNest
CHECK_DEADLOCK FALSE
