SPECIFICATION Spec
CONSTANTS
  M = 5
  T = 3
  MaxSize = 4
INVARIANTS Right Readable
PROPERTY Terminates
CHECK_DEADLOCK FALSE
