CONSTANTS
  Sets = 2
  Limit = 1
SPECIFICATION Spec
INVARIANTS NewestDelivered NeverStuck InOrder TrueWord
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
PROPERTIES Decided
