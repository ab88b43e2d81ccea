SPECIFICATION Spec
CONSTANTS
  N = 6
  H = 4
  A = 1
  B = 1
INVARIANTS OrderDoesNotMatter Proper
CHECK_DEADLOCK FALSE
