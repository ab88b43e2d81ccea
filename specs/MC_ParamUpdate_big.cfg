SPECIFICATION Spec
CONSTANTS
  Dim = 3
  Vals = {1,2,3}
  Points = {1,2,3}
  WMax = 6
  Rounds = 3
INVARIANTS KeepsPoints OneCoordinate ObsLocal ToldOnce
PROPERTIES NothingForgotten
CHECK_DEADLOCK FALSE
