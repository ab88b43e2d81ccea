SPECIFICATION Spec
INVARIANTS Consistent StillThere Good Below
CHECK_DEADLOCK FALSE
CONSTANTS T = 3
 V = 3
 H = 2
 MaxAsks = 2
