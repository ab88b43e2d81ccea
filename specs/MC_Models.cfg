SPECIFICATION Spec
CONSTANTS
  TMax = 4
  XMax = 3
  Export = 3
INVARIANTS Encloses GlobalLow Dominates
CHECK_DEADLOCK FALSE
