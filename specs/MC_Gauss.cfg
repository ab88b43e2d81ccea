SPECIFICATION Spec
CONSTANTS
  TMax = 4
  XMax = 1
  N = 3
INVARIANTS BridgeIsConditioned Nested Markov Reversed Positive
CHECK_DEADLOCK FALSE
