SPECIFICATION Spec
CONSTANTS
  TMax = 6
  XMax = 2
  N = 3
INVARIANTS BridgeIsConditioned Nested Markov Reversed Positive
CHECK_DEADLOCK FALSE
