CONSTANTS
  Words = {0, 1, 32768, 65535, 23130}
  Fields = {0, 1, 5, 8, 15, 16, 23}
  Widths = {1, 3, 8, 15, 16, 17, 24}
SPECIFICATION Spec
INVARIANTS ReadsBack RightBits RoundTrip InRange
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
