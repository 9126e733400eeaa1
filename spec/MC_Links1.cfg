SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 6 OutLen = 5
INVARIANTS Right Shallow
