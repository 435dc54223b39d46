CONSTANTS
  N = 3
  MaxAddr = 6
  Lens = {1, 2}
  Hole = 1
  MaxRead = 4
  BitRun = 2
  Bits = FALSE
SPECIFICATION Spec
INVARIANTS Fits NoInnocent
PROPERTIES NoneAskedAgain Served GivenUp
CHECK_DEADLOCK FALSE
