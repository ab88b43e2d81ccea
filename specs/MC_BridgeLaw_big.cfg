SPECIFICATION Spec
CONSTANTS
  N = 8
  H = 5
  A = 1
  B = 3
INVARIANTS OrderDoesNotMatter Proper
CHECK_DEADLOCK FALSE
