CONSTANTS Fin = 5
 NS = 3
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK RoundTrip HorizonKept Local
CHECK_DEADLOCK FALSE
