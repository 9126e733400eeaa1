SPECIFICATION Spec
CONSTANTS MaxLen = 12 OutLen = 10
INVARIANTS Agrees NotLaw
CHECK_DEADLOCK FALSE
