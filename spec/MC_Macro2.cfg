CONSTANT Deep = 2
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
