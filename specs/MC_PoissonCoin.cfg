SPECIFICATION Spec
CONSTANTS
  M = 4
  T = 3
  MaxSize = 3
INVARIANTS Right Readable
PROPERTY Terminates
CHECK_DEADLOCK FALSE
