SPECIFICATION Spec
CONSTANTS
  Sections = {1,2,3}
  Workers = {w1,w2}
  Len0 = 2
  Shared = FALSE
INVARIANTS ScheduleFree NoReuse
PROPERTIES AllDone
CHECK_DEADLOCK FALSE
