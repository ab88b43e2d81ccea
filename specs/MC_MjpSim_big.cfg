SPECIFICATION Spec
INVARIANTS Conditioned CanStay
CHECK_DEADLOCK FALSE
CONSTANTS Fin = 5
 NS = 3
