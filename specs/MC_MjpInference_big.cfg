SPECIFICATION Spec
INVARIANTS Statistics WholeTime Additive
CHECK_DEADLOCK FALSE
CONSTANTS T = 6
 NS = 3
