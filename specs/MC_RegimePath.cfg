CONSTANTS Fin = 4
 NS = 3
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK RoundTrip HorizonKept Local
CHECK_DEADLOCK FALSE
