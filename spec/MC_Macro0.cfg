CONSTANT Deep = 0
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
