SPECIFICATION Spec
INVARIANTS Consistent StillThere Good Below
CHECK_DEADLOCK FALSE
CONSTANTS T = 4
 V = 2
 H = 1
 MaxAsks = 2
