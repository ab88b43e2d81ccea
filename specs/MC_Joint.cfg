SPECIFICATION Spec
CONSTANTS
  D = 4
  Gens = 2
  LMax = 2
  Depth = 1
  Deep = TRUE
INVARIANTS Fixed Total
CHECK_DEADLOCK FALSE
