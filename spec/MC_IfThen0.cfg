SPECIFICATION Spec
CONSTANTS MaxLen = 9 OutLen = 8
INVARIANTS Agrees NotLaw
CHECK_DEADLOCK FALSE
