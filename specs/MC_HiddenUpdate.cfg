SPECIFICATION Spec
CONSTANTS
  N = 4
  K = 2
  GMax = 2
INVARIANTS TypeOk
PROPERTIES Stays Whole
CHECK_DEADLOCK FALSE
