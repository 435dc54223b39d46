CONSTANTS
  N = 4
  MaxAddr = 8
  Lens = {1, 2}
  Hole = 2
  MaxRead = 5
  BitRun = 2
  Bits = FALSE
SPECIFICATION Spec
INVARIANTS Fits NoInnocent
PROPERTIES NoneAskedAgain Served GivenUp
CHECK_DEADLOCK FALSE
