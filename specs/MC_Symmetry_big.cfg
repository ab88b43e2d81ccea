SPECIFICATION Spec
CONSTANTS
  T = 4
  XMax = 2
  N = 4
INVARIANTS Involution Order Commute FlipTwice FlipEnds FlipRoles FlipIsBoth PivotEnds
CHECK_DEADLOCK FALSE
