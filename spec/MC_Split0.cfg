SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 5 OutLen = 4
INVARIANTS Places Names
