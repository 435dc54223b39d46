CONSTANTS
  Lag = 4
  MS = 1
  HighIds = {1, 2}
  LowIds = {3, 4, 6}
  Period = 4
  MaxCost = 3
  MaxIdle = 2
  LateCap = 40
SPECIFICATION Spec
INVARIANTS TypeOK HighFirst LowNotStarved NoCap
PROPERTIES EveryItem
CHECK_DEADLOCK FALSE
