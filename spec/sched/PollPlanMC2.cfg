CONSTANTS
  Lag = 5
  MS = 1
  HighIds = {1, 2, 5}
  LowIds = {3, 4, 6}
  Period = 5
  MaxCost = 3
  MaxIdle = 3
  LateCap = 70
SPECIFICATION Spec
INVARIANTS TypeOK HighFirst LowNotStarved NoCap
PROPERTIES EveryItem
CHECK_DEADLOCK FALSE
