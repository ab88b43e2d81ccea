SPECIFICATION Spec
CONSTANTS
  SMax = 3
  XMax = 1
  N = 3
INVARIANTS BridgeEnergy BridgeVariance Convex Cut
CHECK_DEADLOCK FALSE
