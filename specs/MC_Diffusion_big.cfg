SPECIFICATION Spec
CONSTANTS
  Rev = {2, 3, 5, 8, 10, 14, 20}
  Vols = {5, 6, 8, 10, 13, 18}
  Hor = {2, 3, 6, 10, 15, 20}
  Pts = {1, 3, 6, 8, 9, 10, 13, 15}
INVARIANTS Exact Composes PinnedIsConditioned PinnedMarkov OneRegime RateEnds BelowLog
CHECK_DEADLOCK FALSE
