SPECIFICATION Spec
CONSTANTS
  Thin = 2
  MaxObj = 6
  Tol = 2
  Rates = {1500000, 2000000, 3000000}
  MaxCount = 14
  Grid = {1,2,3,5,8,13}
INVARIANTS LatestParam KeptEvery Full StopRule
PROPERTIES Ends
CHECK_DEADLOCK FALSE
