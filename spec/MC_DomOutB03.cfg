SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 3
 Wide = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
