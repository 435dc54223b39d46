CONSTANTS
Lens = {2, 4}
Flips = 2
SPECIFICATION Spec
INVARIANTS Detected Intact Bursts Requests Known
CHECK_DEADLOCK FALSE
