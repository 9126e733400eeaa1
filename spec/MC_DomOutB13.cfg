SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 3
 Wide = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
