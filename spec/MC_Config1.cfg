CONSTANT Deep = TRUE
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
