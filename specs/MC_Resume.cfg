SPECIFICATION Spec
CONSTANTS
  Mod = 31
  MaxSweeps = 6
INVARIANTS Same AsFunction
CHECK_DEADLOCK FALSE
