SPECIFICATION Spec
CONSTANTS
  SMax = 4
  XMax = 2
  N = 3
INVARIANTS BridgeEnergy BridgeVariance Convex Cut
CHECK_DEADLOCK FALSE
