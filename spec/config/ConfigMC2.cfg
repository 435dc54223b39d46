SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
INVARIANTS Loads Present Kept Changed Own Again Writes Moved Numbered Named Same
