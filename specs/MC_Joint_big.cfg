SPECIFICATION Spec
CONSTANTS
  D = 4
  Gens = 3
  LMax = 2
  Depth = 2
  Deep = TRUE
INVARIANTS Fixed Total
CHECK_DEADLOCK FALSE
