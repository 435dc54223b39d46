CONSTANTS
  Devs = {1, 2}
  Tmo = 1
  Cyc = 2
  NSetup = 1
  Step = 1
  MaxPause = 2
  PFail = 1
  PCyc = 2
  Reopen = 1
  Pause = 1
  CanSuspend = TRUE
  CanFailOpen = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK NothingForbidden Pauses
PROPERTIES LostRightly ClosedRightly Turns Reopened
CHECK_DEADLOCK FALSE
