SPECIFICATION Spec
CONSTANTS
  Thin = 3
  MaxObj = 12
  Tol = 2
  Rates = {1500000, 2000000, 3000000}
  MaxCount = 30
  Grid = {1,2,3,4,5,6,7,8,9,10,11,12,13,20,30}
INVARIANTS LatestParam KeptEvery Full StopRule
PROPERTIES Ends
CHECK_DEADLOCK FALSE
