SPECIFICATION Spec
CONSTANTS
  Fin = 6
  ObsT = {0,2,4,6}
  NReg = 2
  MaxJumps = 3
INVARIANTS AlignedInv PruneMin SplitPaste
CHECK_DEADLOCK FALSE
