SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 4 OutLen = 4
INVARIANTS Right Shallow
