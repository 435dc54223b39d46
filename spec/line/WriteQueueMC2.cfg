CONSTANTS
  Sets = 3
  Limit = 2
SPECIFICATION Spec
INVARIANTS NewestDelivered NeverStuck InOrder TrueWord
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
PROPERTIES Decided
