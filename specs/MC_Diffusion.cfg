SPECIFICATION Spec
CONSTANTS
  Rev = {5, 17}
  Vols = {6, 15}
  Hor = {3, 10, 20}
  Pts = {3, 8, 10, 13}
INVARIANTS Exact Composes PinnedIsConditioned PinnedMarkov OneRegime RateEnds BelowLog
CHECK_DEADLOCK FALSE
