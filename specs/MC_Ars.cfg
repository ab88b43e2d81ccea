SPECIFICATION Spec
CONSTANTS
  M = 3
  K = 4
  MaxPoints = 3
  Down = 1
  Upw = 1
INVARIANTS Hulls Budget Squeeze Exact
CHECK_DEADLOCK FALSE
