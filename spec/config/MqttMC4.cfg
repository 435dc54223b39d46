SPECIFICATION Spec
CONSTANTS
 MUI <- Never
 KIND = "onoff"
 NREGS = 1
 MAXT = 2
 MAXV = 2
INVARIANTS Current NothingInvented NoRepeats ErrorsShown DeviceShown
CHECK_DEADLOCK FALSE
