SPECIFICATION Spec
CONSTANTS
  Fin = 7
  ObsT = {0,3,5,7}
  NReg = 3
  MaxJumps = 2
INVARIANTS AlignedInv PruneMin SplitPaste
CHECK_DEADLOCK FALSE
