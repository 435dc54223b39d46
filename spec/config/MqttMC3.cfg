SPECIFICATION Spec
CONSTANTS
 MUI <- Never
 KIND = "counter"
 NREGS = 1
 MAXT = 2
 MAXV = 2
INVARIANTS Current NothingInvented NoRepeats ErrorsShown DeviceShown
PROPERTY ZeroHushed
CHECK_DEADLOCK FALSE
