CONSTANTS
  Devs = {1, 2}
  Tmo = 3
  Cyc = 2
  NSetup = 2
  Step = 1
  MaxPause = 6
  PFail = 4
  PCyc = 3
  Reopen = 2
  Pause = 1
  CanSuspend = TRUE
  CanFailOpen = TRUE
  Depth = 120
INIT SimInit
NEXT SimNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
