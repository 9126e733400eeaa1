CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
