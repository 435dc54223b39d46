CONSTANTS
Depth = 2
Ops = {"==", "&&", "||"}
SPECIFICATION Spec
INVARIANTS RoundTrip Brackets Cut Meaning OnlyDeps
CHECK_DEADLOCK FALSE
