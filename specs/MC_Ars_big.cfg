SPECIFICATION Spec
CONSTANTS
  M = 4
  K = 5
  MaxPoints = 4
  Down = 2
  Upw = 1
INVARIANTS Hulls Budget Squeeze Exact
CHECK_DEADLOCK FALSE
