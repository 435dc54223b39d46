CONSTANTS
  Lag = 3
  MS = 1
  HighIds = {1, 2}
  LowIds = {3, 4}
  Period = 3
  MaxCost = 2
  MaxIdle = 2
  LateCap = 40
SPECIFICATION Spec
INVARIANTS TypeOK HighFirst LowNotStarved NoCap
PROPERTIES EveryItem
CHECK_DEADLOCK FALSE
