CONSTANTS
  Slaves = {1, 2}
  Changes = 3
  PerPacket = 1
  CanReboot = TRUE
SPECIFICATION Spec
INVARIANTS InOrderOnce NoneLost
PROPERTIES Arrives
CHECK_DEADLOCK FALSE
