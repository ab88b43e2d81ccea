SPECIFICATION Spec
INVARIANTS Conditioned CanStay
CHECK_DEADLOCK FALSE
CONSTANTS Fin = 4
 NS = 3
