SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Vals = {1,2,3}
  Points = {1,2}
  WMax = 4
  Rounds = 2
INVARIANTS KeepsPoints OneCoordinate ObsLocal ToldOnce
PROPERTIES NothingForgotten
CHECK_DEADLOCK FALSE
