SPECIFICATION Spec
INVARIANTS Statistics WholeTime Additive
CHECK_DEADLOCK FALSE
CONSTANTS T = 5
 NS = 3
