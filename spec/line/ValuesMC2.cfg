CONSTANTS
  Words = {0, 1, 255, 32768, 65535, 23130, 42405}
  Fields = {0,1,2,5,7,8,9,15,16,17,23,24,31}
  Widths = {1,2,3,7,8,9,15,16,17,24,31,32}
SPECIFICATION Spec
INVARIANTS ReadsBack RightBits RoundTrip InRange
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
