SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 5
 OutLen = 3
INVARIANTS Refined Clean
