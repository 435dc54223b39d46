SPECIFICATION Spec
CONSTANTS
 MUI = 2
 KIND = "plain"
 NREGS = 2
 MAXT = 4
 MAXV = 1
INVARIANTS Current NothingInvented NoRepeats ErrorsShown DeviceShown
CHECK_DEADLOCK FALSE
