SPECIFICATION Spec
CONSTANTS
  Mod = 31
  MaxSweeps = 8
INVARIANTS Same AsFunction
CHECK_DEADLOCK FALSE
