SPECIFICATION Spec
INVARIANTS Prefix InOrder ShortIsLast NotStuck
PROPERTIES Complete
CHECK_DEADLOCK FALSE
CONSTANTS G = 8
 MaxSize = 6
