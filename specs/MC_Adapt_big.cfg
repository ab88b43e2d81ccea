SPECIFICATION Spec
CONSTANTS
  Air = 1
  MaxPeriods = 3
  Opt = 234000
  Outcomes = {0,234000,1000000}
INVARIANTS Timing Bounded Diminishing
PROPERTIES Step Direction
CHECK_DEADLOCK FALSE
