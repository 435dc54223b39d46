SPECIFICATION Spec
CONSTANTS
 MUI = 5
 KIND = "counter"
 NREGS = 2
 MAXT = 6
 MAXV = 1
INVARIANTS Current NothingInvented NoRepeats ErrorsShown DeviceShown
PROPERTY ZeroHushed
CHECK_DEADLOCK FALSE
