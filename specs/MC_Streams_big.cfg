SPECIFICATION Spec
CONSTANTS
  Sections = {1,2,3}
  Workers = {w1,w2,w3}
  Len0 = 3
  Shared = FALSE
INVARIANTS ScheduleFree NoReuse
PROPERTIES AllDone
CHECK_DEADLOCK FALSE
