SPECIFICATION Spec
CONSTANTS
  N = 5
  K = 2
  GMax = 3
INVARIANTS TypeOk
PROPERTIES Stays Whole
CHECK_DEADLOCK FALSE
