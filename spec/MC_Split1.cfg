SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 6 OutLen = 4
INVARIANTS Places Names
