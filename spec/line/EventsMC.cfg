CONSTANTS
  Slaves = {1, 2}
  Changes = 2
  PerPacket = 2
  CanReboot = TRUE
SPECIFICATION Spec
INVARIANTS InOrderOnce NoneLost
PROPERTIES Arrives
CHECK_DEADLOCK FALSE
