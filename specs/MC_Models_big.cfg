SPECIFICATION Spec
CONSTANTS
  TMax = 6
  XMax = 5
  Export = 4
INVARIANTS Encloses GlobalLow Dominates
CHECK_DEADLOCK FALSE
