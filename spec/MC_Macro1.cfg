CONSTANT Deep = 1
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
